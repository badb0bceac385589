// C24: utility queues and locks
#include "vfp.hpp"
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/OrderedQueue.hpp>
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <Pothos/Util/UID.hpp>
#include <Pothos/Util/FileLock.hpp>
#include <deque>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
using namespace vf;

//! element that knows whether it is alive, to catch double destruction, use of dead slots and leaks
struct Elem
{
    static std::set<const void *> &live(void) { static std::set<const void *> s; return s; }
    int v; std::string tag;
    Elem(int x = -1) : v(x), tag("t" + std::to_string(x)) { born(); }
    Elem(int a, int b) : Elem(a * 1000 + b) { }
    Elem(const Elem &o) : v(o.v), tag(o.tag) { o.alive(); born(); }
    Elem(Elem &&o) : v(o.v), tag(std::move(o.tag)) { o.alive(); born(); o.v = -2; }
    Elem &operator=(const Elem &o) { alive(); o.alive(); v = o.v; tag = o.tag; return *this; }
    Elem &operator=(Elem &&o) { alive(); o.alive(); v = o.v; tag = std::move(o.tag); if (&o != this) o.v = -2; return *this; }
    ~Elem(void) { if (!live().erase(this)) violation("element-destroyed-twice", "v=" + std::to_string(v)); }
    void born(void) { if (!live().insert(this).second) violation("element-constructed-over-live-element", "v=" + std::to_string(v)); }
    void alive(void) const { if (!live().count(this)) violation("dead-element-used", ""); }
};

typedef Pothos::Util::RingDeque<Elem> Ring;
static void same(const Ring &r, const std::deque<int> &m, size_t cap, const std::string &t)
{
    VF_CHECK(r.size() == m.size(), "ring-size", t << " size " << r.size() << " expected " << m.size());
    VF_CHECK(r.empty() == m.empty(), "ring-empty", t);
    VF_CHECK(r.capacity() == cap, "ring-capacity", t << " capacity " << r.capacity() << " expected " << cap);
    VF_CHECK(r.full() == (m.size() == cap), "ring-full", t);
    if (r.size() != m.size()) return;
    for (size_t i = 0; i < m.size(); i++) { r[i].alive(); VF_CHECK(r[i].v == m[i] && r[i].tag == "t" + std::to_string(m[i]), "ring-content", t << " at " << i << " got " << r[i].v << " expected " << m[i]); }
    if (!m.empty()) VF_CHECK(r.front().v == m.front() && r.back().v == m.back(), "ring-ends", t);
}

static void ringCase(Rng &r, uint64_t)
{
    Elem::live().clear();
    std::string sig, t;
    {
        size_t cap = size_t(r.range(1, 20));
        std::unique_ptr<Ring> q(new Ring(cap));
        std::deque<int> m;
        int next = 0;
        for (unsigned i = 0, n = 50 + r.below(300); i < n; i++)
        {
            const unsigned k = r.below(20);
            std::ostringstream w;
            const bool canPush = m.size() < cap;
            if (k < 4) { if (!canPush) continue; const Elem e(next); q->push_back(e); m.push_back(next++); w << "pb"; }
            else if (k < 6) { if (!canPush) continue; q->emplace_back(next); m.push_back(next++); w << "eb"; }
            else if (k == 6) { if (!canPush) continue; auto &ref = q->emplace_back(next, 7); m.push_back(next * 1000 + 7); VF_CHECK(ref.v == m.back(), "emplace-ref", ""); next++; w << "eb2"; }
            else if (k < 9) { if (!canPush) continue; q->push_front(Elem(next)); m.push_front(next++); w << "pf"; }
            else if (k == 9) { if (!canPush) continue; auto &ref = q->emplace_front(next); m.push_front(next++); VF_CHECK(ref.v == m.front(), "emplace-ref", ""); w << "ef"; }
            else if (k < 12) { if (m.empty()) continue; q->pop_front(); m.pop_front(); w << "of"; }
            else if (k < 14) { if (m.empty()) continue; q->pop_back(); m.pop_back(); w << "ob"; }
            else if (k == 14)
            {
                const size_t c = size_t(r.range(1, 40));
                q->set_capacity(c);
                if (c >= m.size()) cap = c;
                w << "cap" << c;
            }
            else if (k == 15) { Ring c(*q); same(c, m, cap, "copy-construct after " + t); if (r.flip()) q.reset(new Ring(c)); w << "cc"; }
            else if (k == 16) { Ring c(size_t(r.range(1, 30))); for (size_t z = r.below(c.capacity()); z > 0; z--) c.push_back(Elem(-7)); c = *q; same(c, m, cap, "copy-assign after " + t); if (r.flip()) *q = c; w << "ca"; }
            else if (k == 17) { std::unique_ptr<Ring> c(new Ring(std::move(*q))); VF_CHECK(q->empty() && q->size() == 0, "moved-from-not-empty", t); q.swap(c); w << "mc"; }
            else if (k == 18)
            {
                Ring c(size_t(r.range(1, 30))); for (size_t z = r.below(c.capacity()); z > 0; z--) c.push_back(Elem(-8));
                c = std::move(*q); same(c, m, cap, "move-assign after " + t);
                *q = std::move(c); w << "ma";
            }
            else if (r.chance(1, 3)) { q->clear(); m.clear(); w << "cl"; }
            else if (r.chance(1, 3)) { Ring &self = *q; *q = self; w << "self"; }
            else { if (m.empty()) continue; const size_t at = r.below(m.size()); (*q)[at] = Elem(next); m[at] = next++; w << "set"; }
            sig += w.str(); t += w.str() + " "; if (t.size() > 400) t.erase(0, 200);
            same(*q, m, cap, t);
            count("ring_ops");
        }
        VF_CHECK(Elem::live().size() == m.size(), "ring-live-count", "live " << Elem::live().size() << " held " << m.size());
    }
    VF_CHECK(Elem::live().empty(), "ring-leak", "elements never destroyed: " << Elem::live().size() << " " << t);
    distinct(sig);
    sample(t);
}

static void oqCase(Rng &r, uint64_t)
{
    Elem::live().clear();
    const size_t cap = size_t(r.range(1, 20));
    std::string sig;
    {
        Pothos::Util::OrderedQueue<Elem> q(cap);
        VF_CHECK(q.capacity() == cap, "oq-capacity", "");
        // items are tickets with an index 0..cap-1; each is outside (ours) or inside
        std::vector<size_t> outside; for (size_t i = 0; i < cap; i++) outside.push_back(i);
        std::map<size_t, int> pending; std::deque<int> ready; size_t ack = 0; int serial = 0;
        for (unsigned i = 0, n = 100 + r.below(200); i < n; i++)
        {
            if (r.flip() && !outside.empty())
            {
                const size_t k = r.chance(1, 3) ? 0 : r.below(outside.size());
                const size_t idx = outside[k]; outside.erase(outside.begin() + k);
                const int v = serial++ * 100 + int(idx);
                if (r.flip()) { const Elem e(v); q.push(e, idx); } else q.push(Elem(v), idx);
                pending[idx] = v; sig += 'p'; sig += char(idx);
                while (pending.count(ack)) { ready.push_back(pending[ack]); pending.erase(ack); ack = (ack + 1) % cap; }
            }
            else if (!ready.empty())
            {
                VF_CHECK(q.front().v == ready.front(), "oq-order", "front " << q.front().v << " expected " << ready.front());
                outside.push_back(size_t(ready.front() % 100));
                q.pop(); ready.pop_front(); sig += 'o';
            }
            VF_CHECK(q.empty() == ready.empty(), "oq-ready", "queue says empty=" << q.empty() << " but " << ready.size() << " items are in order");
            if (q.empty() != ready.empty()) return;
            if (!ready.empty()) VF_CHECK(q.front().v == ready.front(), "oq-front", "front " << q.front().v << " expected " << ready.front());
            count("oq_ops");
        }
    }
    VF_CHECK(Elem::live().empty(), "oq-leak", "elements never destroyed " << Elem::live().size());
    distinct(sig);
}

static void uidCase(Rng &r, uint64_t)
{
    std::mutex m; std::set<std::string> all; std::vector<std::string> list;
    auto add = [&](const std::string &u) { if (!all.insert(u).second) violation("uid-repeated", u); VF_CHECK(!u.empty(), "uid-empty", ""); };
    const unsigned nproc = unsigned(r.range(1, 3)), nthr = unsigned(r.range(2, 6)), per = 50;
    int fds[2]; if (pipe(fds)) return;
    std::vector<pid_t> pids;
    for (unsigned p = 0; p < nproc; p++)
    {
        const pid_t pid = fork();
        if (pid == 0)
        {
            std::string out;
            for (unsigned i = 0; i < per; i++) out += Pothos::Util::UID().uid() + "\n";
            size_t o = 0; while (o < out.size()) { auto n = write(fds[1], out.data() + o, out.size() - o); if (n <= 0) break; o += size_t(n); }
            _exit(0);
        }
        pids.push_back(pid);
    }
    close(fds[1]);
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&] {
        std::vector<std::string> mine; for (unsigned i = 0; i < per; i++) mine.push_back(Pothos::Util::UID().uid());
        std::lock_guard<std::mutex> l(m); list.insert(list.end(), mine.begin(), mine.end()); });
    for (auto &t : ts) t.join();
    std::string buf; char b[4096]; ssize_t n; while ((n = read(fds[0], b, sizeof b)) > 0) buf.append(b, size_t(n));
    close(fds[0]);
    for (auto p : pids) waitpid(p, nullptr, 0);
    std::istringstream is(buf); std::string l; unsigned lines = 0;
    // a line can be torn only if two processes interleave writes above PIPE_BUF; split defensively on the scheme
    while (std::getline(is, l)) if (l.rfind("pothos:", 0) == 0 && l.find("pothos:", 1) == std::string::npos) { list.push_back(l); lines++; }
    for (auto &u : list) add(u);
    count("uids", list.size()); count("uid_processes", nproc);
    distinct(list.empty() ? "" : list[0]);
    sample(list.empty() ? "" : list[0]);
}

static void spinCase(Rng &r, uint64_t)
{
    Pothos::Util::SpinLock lock;
    uint64_t plain = 0; std::atomic<int> inside{0}; std::string shared = "x"; //plain: ThreadSanitizer watches the happens-before edge
    const unsigned nthr = unsigned(r.range(2, 5)), iters = 150;
    std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (unsigned i = 0; i < nthr; i++) seeds.push_back(r.next());
    std::atomic<uint64_t> done{0}, tries{0};
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&, t] {
        Rng q(seeds[t]);
        for (unsigned i = 0; i < iters; i++)
        {
            if (q.chance(1, 4)) { if (!lock.try_lock()) { tries++; std::this_thread::yield(); continue; } } else lock.lock();
            if (inside.fetch_add(1, std::memory_order_relaxed) != 0) violation("spinlock-two-holders", "");
            if (q.chance(1, 8)) VF_CHECK(!lock.try_lock(), "spinlock-try-while-held", "");
            plain++; shared += "y"; if (shared.size() > 64) shared.clear();
            if (q.chance(1, 16)) std::this_thread::yield();
            inside.fetch_sub(1, std::memory_order_relaxed);
            done++; progress();
            lock.unlock();
        } });
    for (auto &t : ts) t.join();
    VF_CHECK(plain == done, "spinlock-lost-update", plain << " of " << done);
    VF_CHECK(lock.try_lock(), "spinlock-not-released", "");
    count("spin_sections", done); count("spin_try_failed", tries);
    distinct(done * 1000003 + tries);
}

static void lockedRead(Pothos::Util::SpinLockRW &lock, Rng &q, uint64_t &a, uint64_t &b, std::atomic<int> &writers, std::atomic<int> &readers, std::atomic<uint64_t> &overlap)
{
    if (readers.fetch_add(1) != 0) overlap++;
    if (writers.load() != 0) violation("rw-reader-with-writer", "");
    const uint64_t x = a; if (q.chance(1, 8)) std::this_thread::yield(); const uint64_t y = b;
    VF_CHECK(x == y, "rw-torn-read", x << " " << y);
    if (q.chance(1, 16)) VF_CHECK(!lock.try_lock(), "rw-writer-admitted-during-read", "");
    readers.fetch_sub(1);
}

static void rwCase(Rng &r, uint64_t)
{
    Pothos::Util::SpinLockRW lock;
    uint64_t a = 0, b = 0; std::atomic<int> writers{0}, readers{0}; std::atomic<uint64_t> nw{0}, nr{0}, overlap{0};
    const unsigned nthr = unsigned(r.range(2, 6)), iters = 120; const unsigned wr = unsigned(r.range(1, 6));
    std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (unsigned i = 0; i < nthr; i++) seeds.push_back(r.next());
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&, t] {
        Rng q(seeds[t]);
        for (unsigned i = 0; i < iters; i++)
        {
            if (q.chance(wr, 8))
            {
                if (q.chance(1, 4)) { if (!lock.try_lock()) continue; } else lock.lock();
                if (writers.fetch_add(1) != 0) violation("rw-two-writers", "");
                if (readers.load() != 0) violation("rw-writer-with-reader", "");
                a++; if (q.chance(1, 8)) std::this_thread::yield(); b++;
                if (q.chance(1, 8)) { VF_CHECK(!lock.try_lock_shared(), "rw-reader-admitted-during-write", ""); VF_CHECK(!lock.try_lock(), "rw-second-writer-admitted", ""); }
                writers.fetch_sub(1); nw++;
                lock.unlock();
            }
            else
            {
                if (q.chance(1, 4)) { if (!lock.try_lock_shared()) continue; lockedRead(lock, q, a, b, writers, readers, overlap); lock.unlock_shared(); }
                else { Pothos::Util::SpinLockRW::SharedLock l(lock); lockedRead(lock, q, a, b, writers, readers, overlap); }
                nr++;
            }
            progress();
        } });
    for (auto &t : ts) t.join();
    VF_CHECK(a == nw && b == nw, "rw-lost-update", a << " " << b << " of " << nw);
    bool ok = false; for (int i = 0; i < 100 && !ok; i++) ok = lock.try_lock();
    VF_CHECK(ok, "rw-not-released", "");
    // single threaded contract: readers share, a writer excludes
    if (ok) lock.unlock();
    bool s1 = false, s2 = false; for (int i = 0; i < 100 && !s1; i++) s1 = lock.try_lock_shared(); for (int i = 0; i < 100 && !s2; i++) s2 = lock.try_lock_shared();
    VF_CHECK(s1 && s2, "rw-readers-not-shared", "");
    VF_CHECK(!lock.try_lock(), "rw-writer-admitted-with-readers", "");
    lock.unlock_shared(); VF_CHECK(!lock.try_lock(), "rw-writer-admitted-with-one-reader-left", ""); lock.unlock_shared();
    bool w = false; for (int i = 0; i < 100 && !w; i++) w = lock.try_lock();
    VF_CHECK(w, "rw-writer-refused-when-free", "");
    count("rw_writes", nw); count("rw_reads", nr); count("rw_reader_overlaps", overlap);
    distinct(nw * 1000003ull + nr * 7 + overlap);
}

// file locks: threads with separate lock objects, and processes of which some die while holding
struct Shm { std::atomic<int> inside; std::atomic<int> overlaps; std::atomic<int> sections; std::atomic<uint64_t> plainA, plainB; std::atomic<int> holding; };
static void flockCase(Rng &r, uint64_t c)
{
    const std::string path = std::string(getenv("TMPDIR")) + "/lock" + std::to_string(c);
    auto *sh = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shm(); sh->inside = 0; sh->overlaps = 0; sh->sections = 0; sh->holding = 0;
    const unsigned nproc = unsigned(r.range(1, 3)), nthr = unsigned(r.range(1, 3)), iters = 12;
    auto body = [&](uint64_t seed, bool die) {
        Rng q(seed);
        Pothos::Util::FileLock l(path);
        for (unsigned i = 0; i < iters; i++)
        {
            l.lock();
            if (q.chance(1, 4)) l.lock(); //documented no-op for the holder
            if (sh->inside.fetch_add(1) != 0) sh->overlaps++;
            usleep(useconds_t(q.below(150)));
            sh->sections++;
            sh->inside.fetch_sub(1);
            if (die && i == iters / 2) _exit(0); //dies while holding
            l.unlock();
            if (q.chance(1, 4)) l.unlock();
        }
        if (q.flip()) l.lock(); //destructor must release
    };
    std::vector<pid_t> pids;
    std::vector<uint64_t> seeds; for (unsigned i = 0; i < nproc + nthr; i++) seeds.push_back(r.next());
    for (unsigned p = 0; p < nproc; p++)
    {
        const bool die = r.flip();
        const pid_t pid = fork();
        if (pid == 0) { alarm(60); body(seeds[p], die); _exit(0); }
        pids.push_back(pid);
    }
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&, t] { body(seeds[nproc + t], false); });
    for (auto &t : ts) t.join();
    for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) violation("filelock-child-stuck", "status " + std::to_string(st)); }
    VF_CHECK(sh->overlaps == 0, "filelock-two-holders", sh->overlaps << " overlapping sections of " << sh->sections);
    { Pothos::Util::FileLock again(path); again.lock(); again.unlock(); } //would hang if someone still held it
    VF_CHECK(!caught([&] { Pothos::Util::FileLock bad(std::string(getenv("TMPDIR")) + "/no/such/dir/lock"); }).empty(), "filelock-bad-path-accepted", "");
    count("filelock_sections", uint64_t(sh->sections)); count("filelock_processes", nproc);
    distinct(hash64(std::to_string(sh->sections) + "/" + std::to_string(nproc) + std::to_string(nthr) + std::to_string(c)));
    munmap(sh, sizeof(Shm));
    unlink(path.c_str());
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"ring", ringCase}, {"oq", oqCase}, {"uid", uidCase}, {"spin", spinCase}, {"rw", rwCase}, {"flock", flockCase}});
}
