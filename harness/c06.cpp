// C06: buffers are never recycled while referenced and always come back
#include "vfp.hpp"
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferPool.hpp>
#include <deque>
#include <fstream>
#include <unistd.h>
#include <sys/mman.h>
using namespace vf;
using namespace Pothos;

struct Hold { BufferChunk chunk; std::vector<unsigned char> bytes; long slab; };
static bool intact(const Hold &h) { return h.bytes.empty() || memcmp(h.chunk.as<void *>(), h.bytes.data(), h.bytes.size()) == 0; }
static void fillRandom(BufferChunk &c, Rng &r) { for (size_t i = 0; i < c.length; i++) c.as<unsigned char *>()[i] = (unsigned char)r.next(); }
static std::vector<unsigned char> bytesOf(const BufferChunk &c) { return std::vector<unsigned char>(c.as<unsigned char *>(), c.as<unsigned char *>() + c.length); }

static BufferManager::Sptr makeManager(Rng &r, std::string &kind, BufferManagerArgs &a)
{
    kind = r.flip() ? "generic" : "circular";
    a.numBuffers = size_t(r.range(1, 9));
    a.bufferSize = kind == "circular" ? size_t(r.range(1, 2)) * 4096 : size_t(r.range(1, 600));
    if (r.chance(1, 4))
    {
        auto calls = std::make_shared<int>(0);
        const bool circ = kind == "circular";
        auto m = BufferManager::make(kind, a, [calls, circ](const BufferManagerArgs &x) { (*calls)++; return circ ? SharedBuffer::makeCirc(x.bufferSize * x.numBuffers) : SharedBuffer::make(x.bufferSize * x.numBuffers); });
        VF_CHECK(*calls == 1, "allocator-calls", "custom allocator called " << *calls << " times");
        count("custom_allocators");
        return m;
    }
    return BufferManager::make(kind, a);
}

//! exact sequential model: tickets 0..n-1 handed out cyclically; the next one is available iff we do not reference it
static void mgrCase(Rng &r, uint64_t)
{
    std::string kind; BufferManagerArgs a;
    auto m = makeManager(r, kind, a);
    VF_CHECK(m->isInitialized(), "not-initialized", "");
    VF_CHECK(!caught([&] { m->init(a); }).empty(), "double-init-accepted", "");
    std::vector<Hold> held;
    std::string sig = kind + std::to_string(a.numBuffers) + ":", trace = sig;
    size_t next = 0, popped = 0; //slab to be handed out next, bytes already popped from it
    const bool useCallback = r.flip();
    uint64_t callbacks = 0;
    if (useCallback) m->setCallback([&](const ManagedBuffer &b) { callbacks++; b.getBufferManager()->push(b); });
    auto outstanding = [&](size_t slab) { for (auto &h : held) if (h.slab == long(slab)) return true; return false; };
    //slabs that were fully popped and are referenced are outside; a slab still at the front is inside even if referenced
    std::set<size_t> outside;
    auto sync = [&] { for (auto it = outside.begin(); it != outside.end();) if (!outstanding(*it)) it = outside.erase(it); else ++it; };
    bool destroyed = false;
    for (unsigned op = 0, n = 80 + r.below(250); op < n; op++)
    {
        std::ostringstream w;
        const unsigned k = r.below(100);
        if (!destroyed)
        {
            const bool avail = !outside.count(next);
            VF_CHECK(m->empty() == !avail, "manager-empty-mismatch", trace << " manager says empty=" << m->empty() << " but next buffer " << next << (avail ? " is free" : " is referenced"));
            if (m->empty() != !avail) return;
            if (avail)
            {
                VF_CHECK(m->front().getManagedBuffer().getSlabIndex() == next, "manager-order", trace << " handed out " << m->front().getManagedBuffer().getSlabIndex() << " expected " << next);
                VF_CHECK(m->front().length == a.bufferSize - popped, "manager-front-length", trace << " front " << m->front().length << " expected " << a.bufferSize - popped);
            }
        }
        if (k < 50 && !destroyed)
        {
            if (outside.count(next)) continue;
            Hold h; h.chunk = m->front(); h.slab = long(next);
            const size_t take = r.chance(1, 3) ? h.chunk.length : r.below(h.chunk.length + 1);
            if (take == 0 && r.chance(1, 2)) continue;
            h.chunk.length = take;
            fillRandom(h.chunk, r);
            h.bytes = bytesOf(h.chunk);
            m->pop(take); popped += take;
            if (popped * 2 >= a.bufferSize) { outside.insert(next); next = (next + 1) % a.numBuffers; popped = 0; }
            w << "take" << take << "@" << h.slab; sig += 't';
            held.push_back(std::move(h)); count("takes");
        }
        else if (k < 60 && !held.empty())
        {
            const Hold &o = held[r.below(held.size())];
            Hold h = o; //copy of a reference
            if (h.chunk.length && r.flip()) { const size_t s = r.below(h.chunk.length); h.chunk.address += s; h.chunk.length -= s; h.bytes.erase(h.bytes.begin(), h.bytes.begin() + s); }
            if (h.chunk.length && r.flip()) { h.chunk.length = r.below(h.chunk.length + 1); h.bytes.resize(h.chunk.length); }
            held.push_back(std::move(h)); w << "copy"; sig += 'c';
        }
        else if (k < 64 && !held.empty()) { auto &h = held[r.below(held.size())]; auto &self = h.chunk; h.chunk = self; w << "self"; sig += 's'; }
        else if (k < 67 && !held.empty()) { auto &h = held[r.below(held.size())]; BufferChunk t(std::move(h.chunk)); VF_CHECK(!h.chunk && h.chunk.length == 0, "moved-from-chunk", ""); h.chunk = std::move(t); w << "move"; sig += 'm'; }
        else if (k < 70 && !held.empty()) { Hold h = held[r.below(held.size())]; Object o(h.chunk); h.chunk.clear(); h.chunk = o.extract<BufferChunk>(); held.push_back(h); w << "obj"; }
        else if (k < 96 && !held.empty())
        {
            const size_t i = r.chance(1, 3) ? 0 : r.below(held.size());
            w << "rel" << held[i].slab; sig += 'r';
            if (r.flip()) held[i].chunk.clear(); //release before the erase below, so that erase order does not matter
            held.erase(held.begin() + i); count("releases");
            sync();
        }
        else if (k == 97 && !destroyed && r.chance(1, 8))
        {
            m.reset(); destroyed = true; w << "destroy"; sig += 'D'; count("manager_destroyed_while_held", !held.empty());
        }
        else continue;
        if (!destroyed) sync();
        trace += w.str() + " "; if (trace.size() > 900) trace.erase(20, 300);
        for (auto &h : held) if (!intact(h)) { violation("held-buffer-overwritten", trace); return; }
        if (!destroyed)
        {
            std::set<const void *> mbs; for (auto &h : held) mbs.insert((const void *)&h.chunk.getManagedBuffer().getBuffer());
            VF_CHECK(mbs.size() <= a.numBuffers, "more-buffers-than-configured", trace);
        }
    }
    //drain: everything must come back exactly once
    held.clear(); outside.clear();
    if (!destroyed)
    {
        std::vector<BufferChunk> all; size_t got = 0; std::set<size_t> slabs;
        while (!m->empty() && got <= 2 * a.numBuffers) { auto b = m->front(); slabs.insert(b.getManagedBuffer().getSlabIndex()); m->pop(b.length); if (b.length) all.push_back(b); got++; }
        VF_CHECK(got == a.numBuffers && slabs.size() == a.numBuffers, "buffers-lost-or-duplicated", trace << " recovered " << got << " of " << a.numBuffers);
        all.clear();
        VF_CHECK(!m->empty(), "buffers-not-returned", trace);
        count("full_recoveries");
        if (useCallback) VF_CHECK(callbacks > 0, "callback-not-called", "");
    }
    distinct(sig); sample(trace.substr(0, 300));
}

//! amalgamated fronts copied out of an accumulator keep every underlying buffer
static void amalgCase(Rng &r, uint64_t)
{
    std::string kind; BufferManagerArgs a;
    auto m = makeManager(r, kind, a);
    BufferAccumulator acc;
    std::vector<Hold> held; std::string sig = kind;
    for (unsigned op = 0, n = 60 + r.below(150); op < n; op++)
    {
        const unsigned k = r.below(10);
        if (k < 5 && !m->empty())
        {
            auto c = m->front(); if (c.length == 0) continue;
            if (r.chance(1, 3)) c.length = 1 + r.below(c.length);
            fillRandom(c, r); m->pop(c.length); acc.push(std::move(c)); sig += 'p'; count("amalg_pushes");
        }
        else if (k < 7 && acc.front().length)
        {
            Hold h; h.slab = -1; h.chunk = acc.front(); h.bytes = bytesOf(h.chunk);
            if (h.chunk.getEnd() > h.chunk.getBuffer().getEnd()) count("amalgamations_held");
            if (r.flip()) { Hold h2; h2.slab = -1; h2.chunk = h.chunk; h2.bytes = h.bytes; held.push_back(h2); }
            held.push_back(std::move(h)); sig += 'h';
        }
        else if (k < 8 && acc.front().length) { acc.pop(r.chance(1, 2) ? acc.front().length : r.below(acc.front().length + 1)); sig += 'o'; }
        else if (!held.empty()) { held.erase(held.begin() + r.below(held.size())); sig += 'x'; }
        for (auto &h : held) if (!intact(h)) { violation("held-amalgamation-overwritten", sig); return; }
    }
    const bool first = r.flip();
    if (first) held.clear();
    acc = BufferAccumulator();
    if (!first) { for (auto &h : held) if (!intact(h)) violation("held-amalgamation-overwritten", sig); held.clear(); }
    std::vector<BufferChunk> all; size_t got = 0;
    while (!m->empty() && got <= 2 * a.numBuffers) { auto b = m->front(); m->pop(b.length); all.push_back(b); got++; }
    VF_CHECK(got == a.numBuffers, "buffers-lost-or-duplicated", kind << " after amalgamation recovered " << got << " of " << a.numBuffers << " " << sig);
    distinct(sig);
}

static void poolCase(Rng &r, uint64_t)
{
    BufferPool pool; std::vector<Hold> held; std::string sig;
    for (unsigned op = 0, n = 60 + r.below(100); op < n; op++)
    {
        const unsigned k = r.below(10);
        if (k < 6)
        {
            const size_t want = r.chance(1, 5) ? r.below(40000) : r.below(300);
            Hold h; h.slab = -1; h.chunk = pool.get(want);
            VF_CHECK(h.chunk.length >= want, "pool-buffer-too-small", h.chunk.length << " < " << want);
            for (auto &o : held) if (o.chunk.length && h.chunk.address < o.chunk.getEnd() && o.chunk.address < h.chunk.getEnd()) { violation("pool-handed-out-held-buffer", ""); return; }
            h.chunk.length = want; fillRandom(h.chunk, r); h.bytes = bytesOf(h.chunk);
            held.push_back(std::move(h)); count("pool_gets"); sig += char('a' + (want > 8192));
        }
        else if (k < 9 && !held.empty()) { held.erase(held.begin() + r.below(held.size())); sig += 'r'; }
        else if (r.chance(1, 4)) { pool.clear(); sig += 'C'; }
        for (auto &h : held) if (!intact(h)) { violation("pool-held-buffer-overwritten", sig); return; }
    }
    distinct(sig);
}

static void sharedCase(Rng &r, uint64_t c)
{
    const bool circ = r.flip();
    const size_t len = circ ? size_t(r.range(1, 5)) * 4096 : size_t(r.range(1, 20000));
    SharedBuffer b = circ ? SharedBuffer::makeCirc(len) : SharedBuffer::make(len);
    VF_CHECK(b.getLength() == len, "shared-length", b.getLength() << " wanted " << len);
    VF_CHECK(bool(b) && b.getEnd() == b.getAddress() + len, "shared-end", "");
    auto p = (unsigned char *)b.getAddress();
    for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(i * 31 + c);
    if (circ)
    {
        VF_CHECK(b.getAlias() == b.getAddress() + len, "circ-alias", "");
        for (unsigned i = 0; i < 200; i++)
        {
            const size_t at = r.below(len);
            if (r.flip()) p[at] = (unsigned char)r.next(); else p[len + at] = (unsigned char)r.next();
            VF_CHECK(p[at] == p[len + at], "circ-halves-differ", "offset " << at);
        }
        std::vector<unsigned char> span(len); for (auto &x : span) x = (unsigned char)r.next();
        const size_t at = r.below(len);
        memcpy(p + at, span.data(), len); //a write across the seam
        for (size_t i = 0; i < len; i++) if (p[(at + i) % len] != span[i] || p[(at + i) % len + len] != span[i]) { violation("circ-halves-differ", "seam write at " + std::to_string(at)); break; }
        BufferChunk bc(b); bc.address += r.below(len);
        VF_CHECK(bc.getAlias() == bc.address + len, "circ-chunk-alias", "");
        count("circular_buffers");
    }
    //sub ranges: inside is fine, outside throws, and a sub range keeps the memory alive
    const size_t total = circ ? 2 * len : len;
    for (int i = 0; i < 10; i++)
    {
        const size_t off = r.below(total + 1), l = r.below(total - off + 1);
        std::unique_ptr<SharedBuffer> s;
        const auto e = caught([&] { s.reset(new SharedBuffer(b.getAddress() + off, l, b)); });
        VF_CHECK(e.empty(), "subrange-rejected", e << " off " << off << " len " << l << " of " << total);
        if (s) { VF_CHECK(s->getAddress() == b.getAddress() + off && s->getLength() == l && s->getContainer() == b.getContainer(), "subrange-wrong", ""); if (circ) VF_CHECK(s->getAliasOffset() == len, "subrange-alias", s->getAliasOffset()); }
        VF_CHECK(!caught([&] { SharedBuffer x(b.getAddress() + off, total - off + 1 + r.below(100), b); }).empty(), "subrange-beyond-end-accepted", "");
        VF_CHECK(!caught([&] { SharedBuffer x(b.getAddress() - 1 - r.below(100), 1, b); }).empty(), "subrange-before-begin-accepted", "");
        count("subranges");
    }
    const size_t off = r.below(len);
    BufferChunk keep{SharedBuffer(b.getAddress() + off, len - off, b)};
    const auto bytes = bytesOf(keep);
    const auto uc = b.useCount();
    VF_CHECK(uc >= 2 && !b.unique(), "shared-use-count", uc);
    b = SharedBuffer();
    VF_CHECK(keep.getBuffer().unique(), "shared-unique-after-release", keep.getBuffer().useCount());
    VF_CHECK(bytesOf(keep) == bytes, "shared-freed-while-referenced", "");
    //file mapping shows the file and writes reach it
    if (r.chance(1, 4))
    {
        const std::string path = std::string(getenv("TMPDIR")) + "/mm" + std::to_string(c);
        std::string content; for (size_t i = 1 + r.below(9000); i > 0; i--) content += char(r.next());
        { std::ofstream f(path, std::ios::binary); f << content; }
        {
            auto f = SharedBuffer::makeFromFileMMap(path, true, true);
            VF_CHECK(f.getLength() == content.size() && memcmp((void *)f.getAddress(), content.data(), content.size()) == 0, "mmap-content", "");
            const size_t at = r.below(content.size()); content[at] ^= 0x5a; ((char *)f.getAddress())[at] ^= 0x5a;
        }
        std::ifstream f(path, std::ios::binary); std::string back((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        VF_CHECK(back == content, "mmap-write-lost", "");
        VF_CHECK(!caught([&] { SharedBuffer::makeFromFileMMap(path + ".none", true, false); }).empty(), "mmap-missing-file-accepted", "");
        unlink(path.c_str()); count("file_maps");
    }
    distinct(uint64_t(len * 2 + circ) * 1000003 + off);
}

// ------------------------------------------------------------------- inside a running topology
static std::atomic<uint64_t> g_outstanding{0};
struct Gen : Block
{
    uint64_t pos = 0, limit; Rng rng; uint64_t salt; std::string mgr; int style;
    Gen(uint64_t lim, Rng q, uint64_t s, const std::string &m, int st) : limit(lim), rng(q), salt(s), mgr(m), style(st) { this->setupOutput(0, "uint64"); }
    static uint64_t val(uint64_t salt, uint64_t p) { return (p * 0x9E3779B97F4A7C15ull) ^ salt; }
    BufferManager::Sptr getOutputBufferManager(const std::string &, const std::string &domain)
    {
        if (mgr.empty() || !domain.empty()) return BufferManager::Sptr();
        BufferManagerArgs a; a.numBuffers = 2 + salt % 4; a.bufferSize = mgr == "circular" ? 4096 : 128 + (salt >> 8) % 64 * 8;
        return BufferManager::make(mgr, a);
    }
    void work(void)
    {
        if (pos >= limit) return;
        auto out = this->output(0);
        size_t n = std::min<size_t>(out->elements(), limit - pos);
        n = rng.chance(1, 3) ? n : 1 + rng.below(n);
        if (style == 1 || (style == 2 && rng.flip()))
        {
            if (rng.chance(1, 6)) n = 1 + rng.below(std::min<uint64_t>(2000, limit - pos)); //may exceed the front: pool
            auto b = out->getBuffer(n);
            VF_CHECK(b.elements() == n, "getbuffer-length", b.elements() << " wanted " << n);
            for (size_t i = 0; i < n; i++) b.as<uint64_t *>()[i] = val(salt, pos + i);
            pos += n; out->postBuffer(std::move(b));
        }
        else
        {
            auto p = out->buffer().as<uint64_t *>();
            for (size_t i = 0; i < n; i++) p[i] = val(salt, pos + i);
            pos += n; out->produce(n);
        }
        progress();
    }
};
struct HoldSink : Block
{
    struct Item { BufferChunk c; uint64_t at; };
    std::mutex m; std::deque<Item> items; std::atomic<uint64_t> pos{0}; Rng rng; uint64_t salt; size_t maxHold; std::atomic<size_t> verified{0}; std::atomic<bool> bad{false};
    HoldSink(Rng q, uint64_t s, size_t mh) : rng(q), salt(s), maxHold(mh) { this->setupInput(0, "uint64"); }
    bool verify(const Item &i)
    {
        const auto p = i.c.as<const uint64_t *>();
        for (size_t k = 0; k < i.c.length / 8; k++) if (p[k] != Gen::val(salt, i.at + k)) return false;
        return true;
    }
    void release(size_t keep)
    {
        std::deque<Item> out;
        { std::lock_guard<std::mutex> l(m); while (items.size() > keep) { out.push_back(std::move(items.front())); items.pop_front(); } }
        for (auto &i : out) { if (!verify(i) && !bad) { bad = true; violation("held-stream-buffer-overwritten", "element " + std::to_string(i.at)); } verified++; }
    }
    void work(void)
    {
        auto in = this->input(0);
        const size_t n = in->elements(); if (n == 0) return;
        const size_t use = rng.chance(1, 3) ? 1 + rng.below(n) : n;
        Item it; it.at = pos;
        if (rng.flip()) it.c = in->buffer(); else it.c = in->takeBuffer();
        it.c.length = use * 8;
        if (rng.chance(1, 4) && use > 2) { const size_t s = rng.below(use - 1); it.c.address += s * 8; it.c.length -= s * 8; it.at += s; }
        if (!verify(it) && !bad) { bad = true; violation("stream-element-differs", "element " + std::to_string(it.at)); }
        in->consume(use); pos += use; progress();
        { std::lock_guard<std::mutex> l(m); items.push_back(std::move(it)); }
        size_t keep = rng.below(maxHold + 1);
        release(keep);
    }
};

static void topoCase(Rng &r, uint64_t)
{
    const uint64_t salt = r.next(), limit = 2000 + r.below(12000);
    const std::string mgr = r.pick(std::vector<std::string>{"", "generic", "circular"});
    auto gen = std::make_shared<Gen>(limit, r.fork(), salt, mgr, int(r.below(3)));
    std::vector<std::shared_ptr<HoldSink>> sinks;
    for (size_t i = 0, n = 1 + r.below(3); i < n; i++) sinks.push_back(std::make_shared<HoldSink>(r.fork(), salt, r.below(3)));
    std::atomic<bool> stop{false};
    {
        Topology t;
        t.setThreadPool(ThreadPool(ThreadPoolArgs(r.below(4))));
        for (auto &s : sinks) t.connect(gen, 0, s, 0);
        t.commit();
        std::thread ext([&] { Rng q(salt); while (!stop) { for (auto &s : sinks) s->release(q.below(2)); std::this_thread::sleep_for(std::chrono::microseconds(q.below(400))); } });
        const bool done = waitUntil([&] { for (auto &s : sinks) if (s->pos < limit) return false; return true; });
        std::string where; for (auto &s : sinks) where += std::to_string(s->pos) + " ";
        VF_CHECK(done, "stream-starved-of-buffers", "manager '" << mgr << "' produced " << gen->pos << " of " << limit << " consumed " << where);
        if (r.flip()) { t.disconnectAll(); t.commit(); } //teardown while references are held elsewhere
        stop = true; ext.join();
    }
    size_t v = 0; for (auto &s : sinks) { v += s->verified; }
    gen.reset();
    for (auto &s : sinks) s->release(0); //held past the life of the producer and its manager
    count("topo_elements", limit); count("topo_held_verified", v);
    distinct(hash64(std::to_string(v) + mgr + std::to_string(limit)));
}

// several threads release references while the owner acquires, the way an output port drives its manager
static void mtCase(Rng &r, uint64_t)
{
    std::string kind; BufferManagerArgs a;
    auto m = makeManager(r, kind, a);
    std::mutex mlock; std::atomic<uint64_t> returned{0};
    m->setCallback([&](const ManagedBuffer &b) { std::lock_guard<std::mutex> l(mlock); b.getBufferManager()->push(b); returned++; progress(); });
    std::mutex qlock; std::deque<Hold> q; std::atomic<bool> stop{false};
    const unsigned nthr = unsigned(r.range(1, 3));
    std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (unsigned i = 0; i < nthr; i++) seeds.push_back(r.next());
    for (unsigned i = 0; i < nthr; i++) ts.emplace_back([&, i] {
        Rng z(seeds[i]);
        while (true)
        {
            Hold h; { std::lock_guard<std::mutex> l(qlock); if (!q.empty()) { h = std::move(q.front()); q.pop_front(); } else if (stop) return; }
            if (!h.chunk) { std::this_thread::yield(); continue; }
            BufferChunk copy = h.chunk; ManagedBuffer mb = copy.getManagedBuffer();
            if (z.flip()) h.chunk.clear();
            if (z.chance(1, 4)) std::this_thread::yield();
            if (memcmp(copy.as<void *>(), h.bytes.data(), h.bytes.size())) violation("held-buffer-overwritten", kind + " mt");
        } });
    Rng z(r.next());
    const unsigned total = 300;
    for (unsigned i = 0; i < total; i++)
    {
        Hold h;
        const bool ok = waitUntil([&] {
            std::lock_guard<std::mutex> l(mlock);
            if (m->empty()) return false;
            h.chunk = m->front(); if (z.chance(1, 3)) h.chunk.length = 1 + z.below(h.chunk.length);
            m->pop(h.chunk.length); return true; });
        if (!ok) { violation("buffers-lost", kind + " mt: manager stayed empty"); break; }
        fillRandom(h.chunk, z); h.bytes = bytesOf(h.chunk);
        std::vector<Hold> dup(1 + z.below(2), h); h.chunk.clear();
        { std::lock_guard<std::mutex> l(qlock); for (auto &d : dup) q.push_back(std::move(d)); }
        dup.clear();
    }
    stop = true; for (auto &t : ts) t.join();
    size_t got = 0; std::vector<BufferChunk> all;
    while (!m->empty() && got <= 2 * a.numBuffers) { auto b = m->front(); m->pop(b.length); all.push_back(b); got++; }
    VF_CHECK(got == a.numBuffers, "buffers-lost-or-duplicated", kind << " mt recovered " << got << " of " << a.numBuffers);
    m->setCallback(std::function<void(const ManagedBuffer &)>());
    count("mt_returns", returned); distinct(returned * 31 + a.numBuffers);
}

static void badCase(Rng &, uint64_t)
{
    VF_CHECK(!caught([&] { BufferManager::make("no-such-manager"); }).empty(), "unknown-manager-accepted", "");
    BufferManagerArgs a; auto m = BufferManager::make("generic"); VF_CHECK(!m->isInitialized(), "initialized-early", "");
    m->setAllocateFunction([](const BufferManagerArgs &x) { return SharedBuffer::make(x.bufferSize * x.numBuffers); });
    m->init(a);
    VF_CHECK(!caught([&] { m->setAllocateFunction(nullptr); }).empty(), "late-allocator-accepted", "");
    distinct(std::string("bad")); count("bad");
}

//! circular buffers made while other threads map and unmap memory
static void circmtCase(Rng &r, uint64_t)
{
    std::atomic<bool> stop{false}; std::vector<std::thread> ts;
    for (int i = 0; i < 3; i++) { Rng q = r.fork(); ts.emplace_back([&stop, q]() mutable {
        std::vector<std::pair<void *, size_t>> maps;
        while (!stop)
        {
            if (maps.size() < 8 || q.flip()) { const size_t n = 4096 * (1 + q.below(16)); void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p != MAP_FAILED) maps.emplace_back(p, n); }
            if (maps.size() > 16 || q.chance(1, 3)) { if (maps.empty()) continue; const size_t k = q.below(maps.size()); munmap(maps[k].first, maps[k].second); maps.erase(maps.begin() + k); }
        }
        for (auto &m : maps) munmap(m.first, m.second); }); }
    unsigned made = 0;
    std::vector<SharedBuffer> keep;
    for (int i = 0; i < 60; i++)
    {
        const size_t len = 4096 * (1 + r.below(8));
        auto b = SharedBuffer::makeCirc(len);
        auto p = (unsigned char *)b.getAddress();
        //are both halves mapped at all? (msync fails on unmapped pages, without touching them)
        if (msync(p, 2 * len, MS_ASYNC) != 0) { violation("circ-half-not-mapped", "msync fails on the two halves"); break; }
        bool same = true;
        for (size_t at = 0; at < len && same; at += 512) { p[at] = (unsigned char)(at / 512 + i); same = p[at + len] == p[at]; p[at + len] ^= 0x55; same = same && p[at] == p[at + len]; }
        if (!same) { violation("circ-halves-differ", "made while other threads map memory"); break; }
        made++; if (r.chance(1, 3)) keep.push_back(b); if (keep.size() > 10) keep.clear();
    }
    stop = true; for (auto &t : ts) t.join();
    count("circular_under_mmap_load", made); distinct(r.next());
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"mgr", mgrCase}, {"amalg", amalgCase}, {"pool", poolCase}, {"shared", sharedCase}, {"topo", topoCase}, {"mt", mtCase}, {"bad", badCase}, {"circmt", circmtCase}});
}
