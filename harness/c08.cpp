// C08: activation and deactivation bracket all of a block's work
#include "flow.hpp"
using namespace flow;

enum { OFF = 0, ACTIVATING = 1, ON = 2, DEACTIVATING = 3 };

//! one block whose callbacks check the phase they run in. Everything that crosses threads here is a relaxed atomic, so that the
//! monitor does not order the framework's own accesses.
struct Unit : Base
{
    std::atomic<int> phase{OFF}; std::atomic<uint64_t> acts{0}, deacts{0}, works{0}, slots{0}, msgs{0}, elems{0}, wrongSeq{0}; std::atomic<int> failAct{0}, failDeact{0}; std::atomic<bool> produce{true};
    uint64_t seqIn = 0, seqOut = 0; bool backboneIn = false, backboneOut = false; const bool src; uint64_t lazy = 0; bool slow;
    Unit(Rng q, bool s) : Base(q), src(s), slow(rng.chance(1, 4))
    {
        for (int i = 0; i < 2; i++) { setupOutput(i, "uint64"); if (!src) setupInput(i, "uint64"); }
        registerSignal("sig"); registerCall(this, "on", &Unit::on); registerCall(this, "poke", &Unit::poke); registerSlot("on");
    }
    void in(const char *what)
    {
        const int p = phase.load(std::memory_order_relaxed);
        if (p != ON) { std::ostringstream o; o << id << " " << what << " ran while " << (p == OFF ? "inactive" : p == ACTIVATING ? "activating" : "deactivating") << " (activated " << acts << ", deactivated " << deacts << ")"; violation(std::string("ran-while-not-active-") + what, o.str()); }
        if (!isActive()) violation("isActive-false-in-callback", id + " in " + what);
    }
    void boom(int kind, const char *w) { const std::string t = std::string(w) + " refuses " + id; switch (kind) { case 1: throw Pothos::RuntimeException(t); case 2: throw std::runtime_error(t); default: throw kind; } }
    void activate(void)
    {
        const int p = phase.exchange(ACTIVATING); VF_CHECK(p == OFF, "activate-out-of-order", id << " in phase " << p); acts.fetch_add(1, std::memory_order_relaxed);
        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(400)));
        if (int k = failAct.exchange(0)) { phase.store(OFF); count("failed_activations"); boom(k, "activate"); }
        phase.store(ON); count("activations");
    }
    void deactivate(void)
    {
        const int p = phase.exchange(DEACTIVATING); VF_CHECK(p == ON, "deactivate-out-of-order", id << " in phase " << p); deacts.fetch_add(1, std::memory_order_relaxed);
        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(400)));
        phase.store(OFF); count("deactivations");
        if (int k = failDeact.exchange(0)) { count("failed_deactivations"); boom(k, "deactivate"); }
    }
    bool prepare(void) { in("prepare"); return true; }
    void on(uint64_t) { in("slot"); slots.fetch_add(1, std::memory_order_relaxed); progress(); }
    int poke(int v) { return v + 1; }
    void propagateLabels(const InputPort *) { in("labels"); }
    void work(void)
    {
        in("work"); works.fetch_add(1, std::memory_order_relaxed);
        if (!src) for (auto p : inputs())
        {
            while (p->hasMessage()) { p->popMessage(); msgs.fetch_add(1, std::memory_order_relaxed); }
            const size_t n = p->elements(); if (!n) continue;
            if (backboneIn && p->index() == 0) { auto x = p->buffer().as<const uint64_t *>(); for (size_t i = 0; i < n; i++) if (x[i] != seqIn + i) { if (!wrongSeq.fetch_add(1)) { std::ostringstream o; o << id << " element " << seqIn + i << " is " << x[i]; violation("staying-connection-interrupted", o.str()); } } seqIn += n; }
            p->consume(n); elems.fetch_add(n, std::memory_order_relaxed); progress();
        }
        if (!produce.load(std::memory_order_relaxed)) return;
        for (auto o : outputs())
        {
            const size_t n = std::min<size_t>(o->elements(), 1 + rng.below(20)); auto x = o->buffer().as<uint64_t *>();
            for (size_t i = 0; i < n; i++) x[i] = o->index() == 0 && backboneOut ? seqOut++ : 0;
            if (n) { if (rng.chance(1, 8)) o->postLabel(Label("l", Object(), 0)); o->produce(n); }
        }
        if (rng.chance(1, 6)) emitSignal("sig", seqOut); if (rng.chance(1, 6)) output(1)->postMessage(int(works.load()));
        if (rng.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(100)));
        yield();
    }
};
typedef std::shared_ptr<Unit> UnitP;
struct Edge { size_t a, b; std::string sp, dp; bool operator<(const Edge &o) const { return std::tie(a, b, sp, dp) < std::tie(o.a, o.b, o.sp, o.dp); } bool operator==(const Edge &o) const { return std::tie(a, b, sp, dp) == std::tie(o.a, o.b, o.sp, o.dp); } };

static void histCase(Rng &r, uint64_t)
{
    std::string sig; const size_t N = size_t(r.range(3, 7)); std::vector<UnitP> u; std::vector<int> act(N, 0); std::vector<uint64_t> wantA(N, 0), wantD(N, 0); //act: 1 active, 0 not
    auto mk = [&](size_t i) { auto b = std::make_shared<Unit>(r.fork(), i < 2); b->id = "u" + std::to_string(i); b->setName(b->id); if (r.flip()) b->setThreadPool(randPool(r, &sig)); if (i == 0) b->backboneOut = true; if (i == 2) b->backboneIn = true; return b; };
    for (size_t i = 0; i < N; i++) u.push_back(mk(i));
    std::unique_ptr<Topology> t(new Topology()); std::set<Edge> decl, live; const bool backbone = r.flip(), isolated = r.flip(); std::set<size_t> inDesign; const Edge bb{0, 2, "0", "0"};
    //with a backbone, u0 -> u2 stays connected throughout and nothing else may touch its two ports' contents
    auto con = [&](const Edge &e) { t->connect(u[e.a], e.sp, u[e.b], e.dp); decl.insert(e); }; auto dis = [&](const Edge &e) { t->disconnect(u[e.a], e.sp, u[e.b], e.dp); decl.erase(e); };
    if (!backbone) { u[2]->backboneIn = false; }
    uint64_t seen = 0;
    auto doCommit = [&](bool faults)
    {
        std::set<size_t> now; for (auto &e : decl) { now.insert(e.a); now.insert(e.b); }
        std::set<std::string> expectErr; std::vector<size_t> fa, fd;
        for (size_t i : now) if (!inDesign.count(i)) { wantA[i]++; act[i] = 1; if (faults && r.chance(1, 3) && !(backbone && (i == 0 || i == 2))) { u[i]->failAct = 1 + int(r.below(3)); act[i] = 0; expectErr.insert(u[i]->id + ".activate()"); } }
        for (size_t i : inDesign) if (!now.count(i)) { if (act[i]) { wantD[i]++; if (faults && r.chance(1, 4)) { u[i]->failDeact = 1 + int(r.below(3)); expectErr.insert(u[i]->id + ".deactivate()"); } } act[i] = 0; }
        std::map<size_t, uint64_t> stay; for (size_t i : now) if (inDesign.count(i) && act[i]) stay[i] = u[i]->acts;
        const auto err = caught([&] { t->commit(); });
        VF_CHECK(err.empty() == expectErr.empty(), expectErr.empty() ? "commit-failed" : "activation-failure-not-reported", err << " expected " << (expectErr.empty() ? std::string("no error") : *expectErr.begin()));
        for (auto &x : expectErr) VF_CHECK(err.find(x) != std::string::npos, "activation-failure-not-reported", x << " not named in " << err);
        inDesign = now; live = decl; count("commits"); if (!expectErr.empty()) count("faulty_commits");
        for (size_t i = 0; i < N; i++)
        {
            VF_CHECK(u[i]->acts == wantA[i], u[i]->acts < wantA[i] ? "not-activated" : "activated-again", u[i]->id << " activated " << u[i]->acts << " times, expected " << wantA[i]);
            VF_CHECK(u[i]->deacts == wantD[i], u[i]->deacts < wantD[i] ? "not-deactivated" : "deactivated-again", u[i]->id << " deactivated " << u[i]->deacts << " times, expected " << wantD[i]);
            VF_CHECK(u[i]->isActive() == (act[i] != 0), "isActive-wrong", u[i]->id << " reports " << u[i]->isActive());
            VF_CHECK((u[i]->phase == ON) == (act[i] != 0), "phase-wrong", u[i]->id << " phase " << u[i]->phase);
        }
        return expectErr.empty();
    };
    auto anyEdge = [&](Edge &e) { e.a = r.below(N); e.b = 2 + r.below(N - 2); if (e.a >= e.b && e.a >= 2) std::swap(e.a, e.b); if (e.a == e.b) return false; if (r.chance(1, 3)) { e.sp = "sig"; e.dp = "on"; } else { e.sp = std::to_string(r.below(2)); e.dp = std::to_string(r.below(2)); } if (backbone && e.b == 2 && e.dp == "0") e.dp = "1"; if (backbone && isolated && (e.a == 0 || e.a == 2)) return false; return !decl.count(e); };
    if (backbone) con(bb);
    const unsigned steps = unsigned(r.range(6, 16));
    for (unsigned k = 0; k < steps; k++)
    {
        for (unsigned m = 1 + r.below(3); m > 0; m--)
        {
            Edge e;
            switch (r.below(5)) { case 0: case 1: case 2: if (anyEdge(e)) con(e); sig += "c"; break; default: if (!decl.empty()) { auto it = decl.begin(); std::advance(it, r.below(decl.size())); e = *it; if (!(backbone && e == bb)) dis(e); sig += "d"; } }
        }
        doCommit(r.chance(1, 3)); sig += "!";
        const unsigned what = r.below(8);
        if (what == 0 && !backbone) { t->disconnectAll(); decl.clear(); doCommit(false); sig += "A"; }
        else if (what == 1 && !backbone) { for (size_t i = 0; i < N; i++) { if (act[i]) wantD[i]++; act[i] = 0; } t.reset(new Topology()); decl.clear(); inDesign.clear(); sig += "T"; for (size_t i = 0; i < N; i++) { VF_CHECK(u[i]->deacts == wantD[i] && u[i]->acts == wantA[i], "destruction-deactivate-count", u[i]->id << " " << u[i]->deacts << " expected " << wantD[i]); VF_CHECK(!u[i]->isActive(), "active-after-destruction", u[i]->id); } count("topologies_destroyed"); }
        else if (what == 2)
        {
            //replace a block that is out of the design while its former neighbours may still hold its buffers and messages
            const size_t i = r.below(N); if (!inDesign.count(i)) { bool used = false; for (auto &e : decl) if (e.a == i || e.b == i) used = true; if (!used && !(backbone && (i == 0 || i == 2))) { u[i].reset(); u[i] = mk(i); if (!backbone) u[i]->backboneIn = false; wantA[i] = wantD[i] = 0; act[i] = 0; count("blocks_destroyed_after_removal"); sig += "R"; } }
        }
        else if (what == 3) { for (auto &x : u) if (!x->src) { x->input(0)->pushMessage(Object(1)); if (!(backbone && x == u[2])) { BufferChunk c("uint64", 3); memset(c.as<void *>(), 0, c.length); x->input(1)->pushBuffer(c); } } count("pushes_to_inactive"); }
        else if (what == 4) { auto &x = r.pick(u); VF_CHECK(x->call("poke", 4).convert<int>() == 5, "call-failed", x->id); }
        if (r.flip()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2500)));
        //blocks that stay keep working: at least one source of a live stream connection makes progress
        if (backbone && isolated && r.chance(1, 3)) { const auto w = u[2]->elems.load(); VF_CHECK(waitUntil([&] { return u[2]->elems > w; }, 4000), "staying-block-stopped", "u2 after commit " << k); seen++; }
    }
    for (size_t i = 0; i < N; i++) { if (act[i]) wantD[i]++; }
    t.reset();
    for (size_t i = 0; i < N; i++) VF_CHECK(u[i]->deacts == wantD[i] && u[i]->acts == wantA[i] && !u[i]->isActive(), "destruction-deactivate-count", u[i]->id << " activated " << u[i]->acts << "/" << wantA[i] << " deactivated " << u[i]->deacts << "/" << wantD[i]);
    uint64_t w = 0, s = 0; for (auto &x : u) { w += x->works; s += x->slots; } count("works_checked", w); count("slots_checked", s); count("stay_checks", seen);
    //nothing runs afterwards either
    std::vector<uint64_t> before; for (auto &x : u) before.push_back(x->works); std::this_thread::sleep_for(std::chrono::milliseconds(1)); for (size_t i = 0; i < N; i++) VF_CHECK(before[i] == u[i]->works, "work-after-destruction", u[i]->id);
    distinct(sig); sample(sig);
}

int main(int argc, char **argv)
{
    initLib(); registerFakeCopier();
    return run(argc, argv, {{"hist", histCase}});
}
