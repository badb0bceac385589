// C04: a block's code never runs in two threads at once, and each entry sees all effects of the previous one
#include "flow.hpp"
#include <Pothos/Proxy.hpp>
using namespace flow;

enum Kind { WORK, PREPARE, LABELS, SLOT, CALL, ACTIVATE, DEACTIVATE, INMGR, OUTMGR, PROBE, OVERLOAD, NKIND };
static const char *kindNames[NKIND] = {"work", "prepare", "labels", "slot", "call", "activate", "deactivate", "inmgr", "outmgr", "probe", "overload"};

//! All bookkeeping is plain memory (a race or a lost update shows) plus relaxed atomics (which order nothing).
struct Excl : Base
{
    std::atomic<int> in{0}; std::atomic<int> kindIn{-1}; std::atomic<uint64_t> entries{0}; std::atomic<uint64_t> kinds[NKIND]; std::atomic<uint64_t> threadsSeen{0};
    uint64_t plain = 0; std::vector<uint64_t> history; std::map<uint64_t, uint64_t> tree; std::string text; //deliberately unprotected
    unsigned slow; size_t nin, nout; bool source; Rng prng;
    std::atomic<uint64_t> got{0};
    Excl(Rng q, size_t ni, size_t no) : Base(q), slow(unsigned(rng.below(4))), nin(ni), nout(no), source(ni == 0), prng(rng.fork())
    {
        for (auto &k : kinds) k = 0;
        for (size_t i = 0; i < ni; i++) { setupInput(i, "uint8"); if (rng.chance(1, 4)) input(i)->setReserve(1 + rng.below(20)); }
        for (size_t i = 0; i < no; i++) setupOutput(i, "uint8");
        registerCall(this, "poke", &Excl::poke); registerCall(this, "get", &Excl::get); registerCall(this, "slotted", &Excl::slotted); registerSignal("tick");
        registerCall(this, "probed", &Excl::probed); registerProbe("probed");
        registerCall(this, "reserve", &Excl::reserve); registerCallable("over", Callable(&Excl::over1).bind(std::ref(*this), 0)); registerCallable("over", Callable(&Excl::over2).bind(std::ref(*this), 0));
    }
    struct Guard
    {
        Excl &b; Kind k;
        Guard(Excl &b_, Kind k_) : b(b_), k(k_)
        {
            const int was = b.in.fetch_add(1, std::memory_order_relaxed);
            if (was != 0) { const int o = b.kindIn.load(std::memory_order_relaxed); violation("block-entered-twice", b.id + ": " + kindNames[k] + " while in " + (o >= 0 ? kindNames[o] : "?")); }
            b.kindIn.store(k, std::memory_order_relaxed); b.entries.fetch_add(1, std::memory_order_relaxed); b.kinds[k].fetch_add(1, std::memory_order_relaxed);
            b.touch(k);
        }
        ~Guard(void) { b.touch(k); b.kindIn.store(-1, std::memory_order_relaxed); b.in.fetch_sub(1, std::memory_order_relaxed); }
    };
    void touch(Kind k)
    {
        const uint64_t v = plain; history.push_back(k); if (history.size() > 64) history.clear(); tree[v % 32] += k + 1; text += char('a' + k); if (text.size() > 100) text.clear();
        if (slow && prng.chance(slow, 8)) std::this_thread::sleep_for(std::chrono::microseconds(prng.below(60)));
        plain = v + 1;
    }
    void activate(void) { Guard g(*this, ACTIVATE); }
    void deactivate(void) { Guard g(*this, DEACTIVATE); }
    bool prepare(void) { Guard g(*this, PREPARE); return prng.chance(15, 16) || (yield(), false); }
    void propagateLabels(const InputPort *p) { Guard g(*this, LABELS); for (auto &l : p->labels()) for (size_t i = 0; i < nout; i++) output(i)->postLabel(l); }
    void work(void)
    {
        Guard g(*this, WORK); progress();
        size_t avail = 0; for (size_t i = 0; i < nin; i++) { auto p = input(i); while (p->hasMessage()) { p->popMessage(); got.fetch_add(1, std::memory_order_relaxed); } avail += p->elements(); p->consume(p->elements()); }
        const size_t want = source ? 1 + prng.below(100) : avail;
        for (size_t i = 0; i < nout && want; i++)
        {
            const size_t n = std::min(want, output(i)->elements()); if (n == 0) continue; memset(output(i)->buffer().as<char *>(), 7, n); output(i)->produce(n);
            if (prng.chance(1, 3)) output(i)->postLabel("x", Object(1), 0); if (prng.chance(1, 6)) output(i)->postMessage(Object(5));
        }
        if (prng.chance(1, 5)) emitSignal("tick", 1ull);
        if (source) yield();
    }
    BufferManager::Sptr getInputBufferManager(const std::string &n, const std::string &d) { Guard g(*this, INMGR); (void)n; (void)d; return BufferManager::Sptr(); }
    BufferManager::Sptr getOutputBufferManager(const std::string &n, const std::string &d) { Guard g(*this, OUTMGR); if (d.empty() && prng.flip()) { BufferManagerArgs a; a.bufferSize = 512; return BufferManager::make("generic", a); } (void)n; return BufferManager::Sptr(); }
    void poke(int v) { Guard g(*this, CALL); tree[uint64_t(v) % 32]++; }
    unsigned long long get(void) { Guard g(*this, CALL); return plain; }
    void slotted(unsigned long long v) { Guard g(*this, SLOT); tree[v % 32]++; }
    int probed(unsigned long long v) { Guard g(*this, PROBE); return int(v); }
    void over1(int v) { Guard g(*this, OVERLOAD); tree[uint64_t(v) % 32]++; }
    void over2(int v, const std::string &) { Guard g(*this, OVERLOAD); tree[uint64_t(v) % 32]++; }
    void reserve(int n) { Guard g(*this, CALL); if (nin) input(0)->setReserve(size_t(n)); }
};

static void exclCase(Rng &r, uint64_t)
{
    std::string sig; std::vector<std::shared_ptr<Excl>> bs; const size_t n = 2 + r.below(4);
    bs.push_back(std::make_shared<Excl>(r.fork(), 0, 1 + r.below(2)));
    for (size_t i = 1; i < n; i++) { bs.push_back(std::make_shared<Excl>(r.fork(), 1 + r.below(2), i + 1 < n ? r.below(3) : 0)); }
    for (size_t i = 0; i < n; i++) { bs[i]->id = "b" + std::to_string(i); sig += std::to_string(bs[i]->nin) + std::to_string(bs[i]->nout); }
    if (r.chance(2, 3)) { std::vector<ThreadPool> pools; for (size_t i = 0, k = 1 + r.below(2); i < k; i++) pools.push_back(randPool(r, &sig)); for (auto &b : bs) b->setThreadPool(r.pick(pools)); }
    struct E { size_t a, ap, b, bp; }; std::vector<E> base, extra;
    for (size_t b = 1; b < n; b++) for (size_t p = 0; p < bs[b]->nin; p++) { std::vector<std::pair<size_t, size_t>> c; for (size_t a = 0; a < b; a++) for (size_t q = 0; q < bs[a]->nout; q++) c.push_back({a, q}); const auto x = r.pick(c); (r.chance(3, 4) ? base : extra).push_back(E{x.first, x.second, b, p}); }
    if (base.empty()) { base = extra; extra.clear(); }
    auto env = ProxyEnvironment::make("managed");
    {
        Topology t; std::atomic<bool> stop{false};
        for (auto &e : base) t.connect(bs[e.a], e.ap, bs[e.b], e.bp);
        for (size_t i = 0; i < n; i++) { t.connect(bs[i], "tick", bs[(i + 1) % n], "slotted"); if (r.flip()) { t.connect(bs[i], "tick", bs[(i + 2) % n], "probeProbed"); } }
        t.commit();
        std::vector<std::thread> ts; std::atomic<uint64_t> ext{0};
        for (size_t k = 0, nt = 1 + r.below(3); k < nt; k++)
        {
            const uint64_t seed = r.next();
            ts.emplace_back([&, seed] {
                Rng q(seed); uint64_t done = 0;
                while (!stop.load(std::memory_order_relaxed) && done < 400)
                {
                    auto &b = q.pick(bs);
                    switch (q.below(8))
                    {
                    case 0: b->call("poke", int(q.below(100))); break;
                    case 1: { auto v = b->call("get").convert<unsigned long long>(); (void)v; break; }
                    case 2: { auto p = env->convertObjectToProxy(Object(std::static_pointer_cast<Block>(b))); p.call("poke", 3); break; }
                    case 3: if (b->nin) b->input(0)->pushMessage(Object(1)); break;
                    case 4: if (b->nin) { BufferChunk c("uint8", 1 + q.below(50)); b->input(0)->pushBuffer(c); } break;
                    case 5: if (b->nin) b->call("reserve", int(q.below(10))); break;
                    case 6: if (q.flip()) b->call("over", int(q.below(100))); else b->call("over", 4, "text"); break;
                    default: { const bool a = b->isActive(); (void)a; break; }
                    }
                    done++; if (q.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(100)));
                }
                ext.fetch_add(done); });
        }
        //the controlling thread edits, queries and re-pools meanwhile
        const size_t steps = 3 + r.below(8);
        for (size_t i = 0; i < steps; i++)
        {
            switch (r.below(5))
            {
            case 0: { const auto js = t.queryJSONStats(); if (js.size() < 2) violation("stats-empty", js); break; }
            case 1: { auto p = randPool(r); r.pick(bs)->setThreadPool(p); sig += "p"; break; }
            case 2: { if (extra.empty()) break; const auto e = extra.back(); extra.pop_back(); base.push_back(e); t.connect(bs[e.a], e.ap, bs[e.b], e.bp); t.commit(); sig += "+"; break; }
            case 3: { if (base.size() < 2) break; const auto e = base.back(); base.pop_back(); extra.push_back(e); t.disconnect(bs[e.a], e.ap, bs[e.b], e.bp); t.commit(); sig += "-"; break; }
            default: t.waitInactive(0.001, 0.002);
            }
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
        }
        stop = true; for (auto &x : ts) x.join();
        if (r.flip()) { t.disconnectAll(); t.commit(); }
        count("external_operations", ext);
    }
    uint64_t total = 0;
    for (auto &b : bs)
    {
        VF_CHECK(b->plain == 2 * b->entries, "lost-update", b->id << " plain " << b->plain << " entries " << b->entries);
        total += b->entries; for (int k = 0; k < NKIND; k++) if (b->kinds[k]) count(std::string("entries_") + kindNames[k], b->kinds[k]);
    }
    count("entries", total); distinct(sig); sample(sig + " entries " + std::to_string(total));
}

int main(int argc, char **argv)
{
    initLib();
    registerFakeCopier();
    return run(argc, argv, {{"excl", exclCase}});
}
