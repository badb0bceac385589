// C05: ready work always runs; commits, reconfigurations and teardown always complete; waitInactive is truthful
#include "flow.hpp"
using namespace flow;

static ThreadPool anyPool(Rng &r, std::string &sig)
{
    ThreadPoolArgs a(r.below(5)); a.yieldMode = r.pick(std::vector<std::string>{"", "CONDITION", "HYBRID", "SPIN"});
    if (r.chance(1, 4)) { a.affinityMode = "CPU"; for (size_t i = 0, n = 1 + r.below(3); i < n; i++) a.affinity.push_back(r.below(4)); }
    if (r.chance(1, 6)) a.priority = r.flip() ? 0.1 : -0.3;
    sig += std::to_string(a.numThreads) + a.yieldMode.substr(0, 1) + (a.affinityMode.empty() ? "" : "A") + ",";
    return ThreadPool(a);
}

//! passes everything on; counts what it handled with relaxed atomics only
struct Node : Base
{
    std::atomic<uint64_t> elems{0}, msgs{0}, slots{0}, calls{0}, works{0}; bool last, grumpy;
    Node(Rng q, bool l) : Base(q), last(l), grumpy(rng.chance(1, 3)) //grumpy blocks decline turns and throw
    {
        setupInput(0, "uint8"); if (!last) setupOutput(0, "uint8"); registerSignal("sig"); registerCall(this, "slot", &Node::slot); registerCall(this, "poke", &Node::poke); registerCall(this, "emit", &Node::emit);
    }
    void slot(int v) { slots.fetch_add(1, std::memory_order_relaxed); progress(); if (!last) emitSignal("sig", v); }
    int poke(int v) { calls.fetch_add(1, std::memory_order_relaxed); progress(); return v + 1; }
    void emit(int v) { emitSignal("sig", v); }
    bool prepare(void) { if (!grumpy || !rng.chance(1, 6)) return true; yield(); if (rng.flip()) return false; if (rng.flip()) throw std::runtime_error("declined"); throw 5; }
    void work(void)
    {
        works.fetch_add(1, std::memory_order_relaxed);
        auto p = input(0);
        if (p->hasMessage()) { auto m = p->popMessage(); msgs.fetch_add(1, std::memory_order_relaxed); progress(); if (!last) output(0)->postMessage(m); }
        size_t n = p->elements(); if (!last) n = std::min(n, output(0)->elements());
        if (n) { p->consume(n); if (!last) { memset(output(0)->buffer().as<char *>(), 1, n); output(0)->produce(n); } elems.fetch_add(n, std::memory_order_relaxed); progress(); }
        if (grumpy && rng.chance(1, 6)) { if (rng.flip()) throw Pothos::RuntimeException("done, but throws"); throw 6; }
    }
};

struct Idle : Base { Idle(Rng q) : Base(q) { setupOutput(0, "uint8"); } void work(void) {} };

//! one event at a time into a quiescent chain, at varying distances from the moment the workers went idle
static void kickCase(Rng &r, uint64_t)
{
    std::string sig = "kick:"; const size_t n = 1 + r.below(4); std::vector<std::shared_ptr<Node>> b; auto idle = std::make_shared<Idle>(r.fork());
    for (size_t i = 0; i < n; i++) { b.push_back(std::make_shared<Node>(r.fork(), i + 1 == n)); b.back()->id = "n" + std::to_string(i); }
    auto pool = anyPool(r, sig); const bool shared = r.chance(3, 4); for (auto &x : b) x->setThreadPool(shared ? pool : anyPool(r, sig)); if (r.flip()) idle->setThreadPool(pool);
    uint64_t events = 0;
    {
        Topology t; t.connect(idle, 0, b[0], 0); for (size_t i = 0; i + 1 < n; i++) { t.connect(b[i], 0, b[i + 1], 0); t.connect(b[i], "sig", b[i + 1], "slot"); }
        t.commit();
        uint64_t e = 0, m = 0, s = 0, c = 0; auto &last = *b.back(); const unsigned rounds = 120;
        for (unsigned k = 0; k < rounds; k++)
        {
            //vary the distance to the previous event: immediately after, during the idle transition, or long after
            switch (r.below(4)) { case 0: break; case 1: for (volatile int i = 0, q = int(r.below(3000)); i < q; i++) {} break; case 2: std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); break; default: if (r.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(900 + r.below(400))); }
            const unsigned kind = r.below(n > 1 ? 5 : 3); bool ok = true; const char *what = "";
            switch (kind)
            {
            case 0: { BufferChunk c0("uint8", 1 + r.below(20)); memset(c0.as<void *>(), 1, c0.length); e += c0.length; b[0]->input(0)->pushBuffer(c0); what = "buffer"; ok = waitUntil([&] { return last.elems >= e; }, 4000); break; }
            case 1: m++; b[0]->input(0)->pushMessage(Object(int(k))); what = "message"; ok = waitUntil([&] { return last.msgs >= m; }, 4000); break;
            case 2: { c++; const int v = last.call("poke", int(k)).convert<int>(); what = "call"; ok = v == int(k) + 1 && last.calls == c; break; }
            default: s++; b[0]->call("emit", int(k)); what = "slot call"; ok = waitUntil([&] { return last.slots >= s; }, 4000); break;
            }
            events++;
            if (!ok) { std::ostringstream o; o << sig << " " << what << " number " << k << " was never handled by the last of " << n << " blocks: elems " << last.elems << "/" << e << " msgs " << last.msgs << "/" << m << " slots " << last.slots << "/" << s; violation("ready-work-never-ran", o.str()); break; }
            if (r.chance(1, 30)) { auto p2 = anyPool(r, sig); r.pick(b)->setThreadPool(p2); count("pool_changes"); }
        }
    }
    count("kicks", events); distinct(sig + std::to_string(n)); sample(sig);
}

//! continuous stream through pools that are replaced and torn down underneath
static void poolsCase(Rng &r, uint64_t)
{
    std::string sig = "pools:"; const size_t chains = 1 + r.below(3); struct Chain { std::shared_ptr<Idle> idle; std::vector<std::shared_ptr<Node>> b; std::unique_ptr<Topology> t; }; std::vector<Chain> cs(chains);
    std::vector<ThreadPool> pools; for (size_t i = 0; i < 3; i++) pools.push_back(anyPool(r, sig));
    for (auto &c : cs)
    {
        c.idle = std::make_shared<Idle>(r.fork()); const size_t n = 1 + r.below(5); for (size_t i = 0; i < n; i++) { c.b.push_back(std::make_shared<Node>(r.fork(), i + 1 == n)); c.b.back()->setThreadPool(r.pick(pools)); }
        c.t.reset(new Topology()); if (r.flip()) c.t->setThreadPool(r.pick(pools));
        c.t->connect(c.idle, 0, c.b[0], 0); for (size_t i = 0; i + 1 < n; i++) c.t->connect(c.b[i], 0, c.b[i + 1], 0); c.t->commit(); sig += std::to_string(n);
    }
    const uint64_t per = 300; std::atomic<bool> go{true}; std::vector<std::thread> ts; std::atomic<uint64_t> fed{0};
    for (auto &c : cs) { const uint64_t seed = r.next(); auto first = c.b[0]; ts.emplace_back([&, first, seed] { Rng q(seed); for (uint64_t i = 0; i < per; i++) { first->input(0)->pushMessage(Object(int(i))); BufferChunk k("uint8", 5); memset(k.as<void *>(), 1, 5); first->input(0)->pushBuffer(k); fed++; if (q.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(400))); } }); }
    for (unsigned k = 0; k < 25; k++)
    {
        switch (r.below(4))
        {
        case 0: { auto &c = r.pick(cs); c.b[r.below(c.b.size())]->setThreadPool(r.pick(pools)); break; }
        case 1: { auto &c = r.pick(cs); c.b[r.below(c.b.size())]->setThreadPool(anyPool(r, sig)); break; } //private pool, dies with the next change
        case 2: pools[r.below(pools.size())] = anyPool(r, sig); break; //drop our handle; blocks may be its last users
        default: { auto &c = r.pick(cs); c.t->commit(); break; }
        }
        count("pool_changes"); if (r.flip()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
    }
    for (auto &x : ts) x.join();
    for (auto &c : cs) { auto &l = *c.b.back(); const bool ok = waitUntil([&] { return l.msgs >= per && l.elems >= per * 5; }, 4000); VF_CHECK(ok, "ready-work-never-ran", sig << " after pool changes: " << l.msgs << " of " << per << " messages, " << l.elems << " of " << per * 5 << " elements"); }
    while (!cs.empty()) { const size_t i = r.below(cs.size()); cs.erase(cs.begin() + i); progress(); }
    distinct(sig); count("pool_runs");
}

//! build, run and tear down topologies from several threads on shared pools; every step has to return
static void lifeCase(Rng &r, uint64_t)
{
    std::string sig = "life:"; std::vector<ThreadPool> pools; for (size_t i = 0; i < 2; i++) pools.push_back(anyPool(r, sig)); std::vector<std::thread> ts; const size_t nt = 1 + r.below(4);
    for (size_t k = 0; k < nt; k++) { const uint64_t seed = r.next(); ts.emplace_back([&, seed] {
        Rng q(seed);
        for (unsigned round = 0; round < 6; round++)
        {
            Topology t; std::vector<std::shared_ptr<Node>> b; auto idle = std::make_shared<Idle>(q.fork()); const size_t n = 1 + q.below(4);
            for (size_t i = 0; i < n; i++) { b.push_back(std::make_shared<Node>(q.fork(), i + 1 == n)); if (q.flip()) b.back()->setThreadPool(q.pick(pools)); }
            t.connect(idle, 0, b[0], 0); for (size_t i = 0; i + 1 < n; i++) t.connect(b[i], 0, b[i + 1], 0); t.commit(); progress();
            for (unsigned i = 0, m = q.below(30); i < m; i++) b[0]->input(0)->pushMessage(Object(1));
            switch (q.below(4)) { case 0: t.waitInactive(0.001, 0.05); break; case 1: t.disconnectAll(); t.commit(); break; case 2: if (n > 1) { t.disconnect(b[0], 0, b[1], 0); t.commit(); t.connect(b[0], 0, b[1], 0); t.commit(); } break; default: break; }
            if (q.flip()) b.clear(); //the topology holds the last references
            progress(); count("lifecycles");
        } }); }
    for (auto &x : ts) x.join();
    distinct(sig + std::to_string(nt));
}

//! a producer blocked on its buffers or message tokens continues when they come back, whoever releases them
struct Hoarder : Base
{
    std::mutex m; std::deque<BufferChunk> held; std::atomic<uint64_t> got{0}; size_t maxHold;
    Hoarder(Rng q, size_t mh) : Base(q), maxHold(mh) { setupInput(0, "uint8"); }
    void work(void)
    {
        auto p = input(0); if (!p->elements()) return; auto c = p->takeBuffer(); const size_t n = p->elements(); c.length = n; p->consume(n); got.fetch_add(n, std::memory_order_relaxed); progress();
        std::lock_guard<std::mutex> l(m); held.push_back(std::move(c));
    }
};
struct Pump : Base
{
    uint64_t limit; std::atomic<uint64_t> sent{0}; BufferManager::Sptr mgr; size_t chunk;
    bool pops = false;
    Pump(Rng q, uint64_t l, size_t ch) : Base(q), limit(l), chunk(ch) { setupOutput(0, "uint8"); }
    BufferManager::Sptr getOutputBufferManager(const std::string &, const std::string &) { return mgr; }
    void work(void) { if (sent >= limit) return; if (pops && rng.chance(1, 4)) { const size_t e = output(0)->elements(); output(0)->popElements(rng.flip() ? e : 1 + rng.below(e)); count("pop_turns"); progress(); return; } //giving space away is progress: it runs again
        const size_t n = std::min<size_t>(std::min<size_t>(output(0)->elements(), chunk), limit - sent); memset(output(0)->buffer().as<char *>(), 1, n); output(0)->produce(n); sent.fetch_add(n, std::memory_order_relaxed); progress(); yield(); }
};
static void resourceCase(Rng &r, uint64_t)
{
    std::string sig = "res:"; BufferManagerArgs a; a.numBuffers = 1 + r.below(4); const bool circ = r.chance(1, 3); a.bufferSize = circ ? 4096 : 64 + r.below(400);
    auto src = std::make_shared<Pump>(r.fork(), circ ? 40000 : 8000, 1 + r.below(600)); src->mgr = BufferManager::make(circ ? "circular" : "generic", a); auto dst = std::make_shared<Hoarder>(r.fork(), 3); src->pops = r.chance(1, 3); if (circ && r.flip()) { src->output(0)->setReserve(1 + r.below(a.numBuffers * 4096)); count("circular_reserves"); }
    if (r.flip()) { auto p = anyPool(r, sig); src->setThreadPool(p); if (r.flip()) dst->setThreadPool(p); }
    {
        Topology t; t.connect(src, 0, dst, 0); t.commit(); std::atomic<bool> stop{false};
        std::thread rel([&] { Rng q(r.s + 5); while (!stop) { { std::lock_guard<std::mutex> l(dst->m); if (!dst->held.empty() && q.chance(2, 3)) { if (q.chance(1, 4)) dst->held.pop_back(); else dst->held.pop_front(); } } std::this_thread::sleep_for(std::chrono::microseconds(q.below(120))); } });
        const bool ok = waitUntil([&] { return dst->got >= src->limit; }, 4000);
        VF_CHECK(ok, "ready-work-never-ran", sig << " producer with " << a.numBuffers << (circ ? " circular" : " generic") << " buffers of " << a.bufferSize << ": sent " << src->sent << " received " << dst->got << " of " << src->limit << " held " << dst->held.size());
        stop = true; rel.join();
        if (r.flip()) dst->held.clear(); else { t.disconnectAll(); t.commit(); }
    }
    dst->held.clear(); count("starved_producers"); distinct(sig + std::to_string(a.numBuffers) + "," + std::to_string(a.bufferSize) + (circ ? "c" : "g") + std::to_string(src->chunk));
}

//! the bytes are all there, then the stream stops: asking for a larger front is enough to be run again
struct Asker : Base
{
    std::vector<size_t> want; size_t k = 0, cur = 0; std::atomic<uint64_t> got{0}; std::atomic<bool> done{false};
    Asker(Rng q, std::vector<size_t> w) : Base(q), want(std::move(w)) { setupInput(0, "uint8"); }
    void work(void)
    {
        auto p = input(0); const size_t n = p->elements(); if (done || !n) return;
        if (n < want[k]) { p->setReserve(cur = want[k]); return; } //nothing else: this has to lead to another turn
        got += n < want[k] ? n : want[k]; p->consume(want[k]); progress(); k++; if (k == want.size()) { done = true; return; }
        if (want[k] < cur || rng.flip()) p->setReserve(cur = rng.below(2)); //small again, the next turn raises it
        yield();
    }
};
static void askerCase(Rng &r, uint64_t)
{
    std::string sig = "ask:"; std::vector<size_t> want; size_t total = 0; for (size_t i = 0, n = 1 + r.below(5); i < n; i++) { want.push_back(1 + r.below(500)); total += want.back(); sig += std::to_string(want.back()) + ","; }
    auto idle = std::make_shared<Idle>(r.fork()); auto k = std::make_shared<Asker>(r.fork(), want); if (r.chance(1, 3)) k->input(0)->setReserve(k->cur = 1 + r.below(want[0])); if (r.flip()) k->setThreadPool(anyPool(r, sig));
    Topology t; t.connect(idle, 0, k, 0); size_t sent = 0; const bool early = r.flip(); if (!early) t.commit();
    std::vector<BufferChunk> cs; while (sent < total) { const size_t n = std::min<size_t>(total - sent, 1 + r.below(120)); BufferChunk c("uint8", n); memset(c.as<void *>(), 1, n); sent += n; if (early) cs.push_back(c); else k->input(0)->pushBuffer(c); }
    if (early) { for (auto &c : cs) k->input(0)->pushBuffer(c); t.commit(); }
    const bool ok = waitUntil([&] { return k->done.load(); }, 4000); VF_CHECK(ok, "ready-work-never-ran", sig << " a larger reserve was asked for, " << total << " bytes were queued, " << k->got << " were handled"); count("reserve_raises"); distinct(sig);
}

//! waitInactive against the recorded activity
struct Pulse : Base
{
    std::atomic<bool> on{true}; std::atomic<unsigned> periodUs{500}; std::mutex m; std::vector<std::pair<int64_t, int64_t>> span; std::atomic<uint64_t> n{0};
    Pulse(Rng q) : Base(q) { setupOutput(0, "uint8"); registerCall(this, "go", &Pulse::go); }
    void go(void) { on = true; }
    static int64_t now(void) { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
    void work(void)
    {
        if (!on) return; const int64_t s = now(); std::this_thread::sleep_for(std::chrono::microseconds(periodUs.load()));
        memset(output(0)->buffer().as<char *>(), 1, 1); output(0)->produce(1); n++; yield(); progress(); std::lock_guard<std::mutex> l(m); span.push_back({s, now()});
    }
};
static void inactiveCase(Rng &r, uint64_t)
{
    { Topology t; std::vector<std::shared_ptr<Idle>> a; std::vector<std::shared_ptr<Node>> b; for (size_t i = 0, n = 1 + r.below(3); i < n; i++) { a.push_back(std::make_shared<Idle>(r.fork())); b.push_back(std::make_shared<Node>(r.fork(), true)); t.connect(a[i], 0, b[i], 0); } t.commit(); const double d = r.pick(std::vector<double>{0.004, 0.02}); const int64_t a0 = Pulse::now(); const bool idle = t.waitInactive(d, 20.0); const int64_t a1 = Pulse::now(); VF_CHECK(idle, "never-inactive", "a design where nothing ever happens"); VF_CHECK(a1 - a0 >= int64_t(d * 1e9) - 1000, "inactive-too-early", "a design where nothing happened yet was called inactive after " << (a1 - a0) / 1e9 << " s, idle period " << d); count("fresh_waits"); }
    std::string sig = "inact:"; auto p = std::make_shared<Pulse>(r.fork()); auto k = std::make_shared<Node>(r.fork(), true); if (r.flip()) { auto q = anyPool(r, sig); p->setThreadPool(q); k->setThreadPool(q); }
    Topology t; t.connect(p, 0, k, 0); t.commit(); const double D = r.pick(std::vector<double>{0.005, 0.01, 0.03}); p->periodUs = 100 + r.below(700);
    if (r.flip()) { const int64_t f0 = Pulse::now(); if (t.waitInactive(D, 0.02)) VF_CHECK(Pulse::now() - f0 >= int64_t(D * 1e9) - 1000, "inactive-too-early", sig << "a design that was just committed was called inactive after " << (Pulse::now() - f0) / 1e9 << " s, idle period " << D); count("fresh_waits"); }
    waitUntil([&] { return p->n >= 5; });
    const int64_t t0 = Pulse::now(); const bool idle = t.waitInactive(D, 0.05 + D * 3); const int64_t t1 = Pulse::now(); const uint64_t at = p->n;
    waitUntil([&] { return p->n >= at + 4; }); //events on both sides of the window
    std::vector<std::pair<int64_t, int64_t>> span; { std::lock_guard<std::mutex> l(p->m); span = p->span; }
    //activity k is signalled between the end of work k and the start of work k+1
    int64_t maxGap = 0; for (size_t i = 0; i + 2 < span.size(); i++) if (span[i + 2].first >= t0 && span[i].second <= t1) maxGap = std::max(maxGap, span[i + 2].first - span[i].second);
    if (idle) { VF_CHECK(maxGap >= int64_t(D * 1e9) || span.empty() || span.back().first < t1, "inactive-while-active", sig << " idle period " << D << " but activity at most " << maxGap / 1e9 << " apart"); count("true_with_gap"); }
    else { VF_CHECK(t1 - t0 >= int64_t((0.05 + D * 3) * 1e9) - 1000000, "gave-up-before-timeout", sig << (t1 - t0) / 1e9); count("active_reported"); }
    //stop: has to become inactive, not before a full idle period
    p->on = false; std::this_thread::sleep_for(std::chrono::milliseconds(1)); const int64_t t2 = Pulse::now(); const bool quiet = t.waitInactive(D, 30.0); const int64_t t3 = Pulse::now();
    VF_CHECK(quiet, "never-inactive", sig << " nothing active for " << (t3 - t2) / 1e9 << " s");
    VF_CHECK(t3 - t2 >= int64_t(D * 1e9) - 1000, "inactive-too-early", sig << "returned after " << (t3 - t2) / 1e9 << " s, idle period " << D);
    //and the flow resumes
    const uint64_t before = p->n; p->call("go"); VF_CHECK(waitUntil([&] { return k->elems > before + 2; }, 4000), "ready-work-never-ran", sig << " after an external call asked for it"); distinct(sig + std::to_string(D)); count("inactive_checks");
}

int main(int argc, char **argv) { initLib(); registerFakeCopier(); return run(argc, argv, {{"kick", kickCase}, {"pools", poolsCase}, {"life", lifeCase}, {"resource", resourceCase}, {"asker", askerCase}, {"inactive", inactiveCase}}); }
