// C10: reported statistics, port state and configuration match what actually happened
#include "flow.hpp"
#include <Pothos/Proxy.hpp>
#include <json.hpp>
#include <Pothos/Framework/TopologyImpl.hpp>
using namespace flow;
using json = nlohmann::json;
typedef std::chrono::high_resolution_clock Clk;
static long long ticks(void) { return Clk::now().time_since_epoch().count(); }

/***********************************************************************
 * run: live graphs; every node keeps its own counts, queries run concurrently, the graph is stopped at an arbitrary moment
 **********************************************************************/
struct PortMon { std::atomic<uint64_t> elems{0}, bufs{0}, labels{0}, msgs{0}; std::atomic<uint64_t> reserve{0}; };
struct Node : Base
{
    std::map<std::string, std::unique_ptr<PortMon>> im, om; std::map<std::string, OutStreamP> str; std::map<std::string, Sender> snd;
    std::atomic<uint64_t> works{0}, prepares{0}, slots{0}; std::atomic<bool> consumedAny{false}, producedAny{false}; const bool exact; const unsigned style; uint64_t budget; const long long born; std::string path;
    //exact nodes have ports 0 -> 0 of one type, consume and produce the same number of elements and forward every label
    Node(Rng q, size_t nin, size_t nout, bool exact_, const DType &dt) : Base(q), exact(exact_), style(rng.below(8)), budget(rng.range(20, 400)), born(ticks())
    {
        for (size_t i = 0; i < nin; i++) { const std::string n = i && rng.flip() ? "in" + std::to_string(i) : std::to_string(i); setupInput(n, dt); im[n].reset(new PortMon()); }
        for (size_t i = 0; i < nout; i++) { const std::string n = i && rng.flip() ? "out" + std::to_string(i) : std::to_string(i); setupOutput(n, dt); om[n].reset(new PortMon()); auto s = std::make_shared<OutStream>(); s->size = dt.size(); s->c.salt = rng.next(); str[n] = s; }
        registerSignal("sig"); registerCall(this, "on", &Node::on);
    }
    void on(int) { slots.fetch_add(1, std::memory_order_relaxed); }
    bool prepare(void) { if (style == 3 && rng.chance(1, 4)) { yield(); return false; } if (style == 4 && rng.chance(1, 6)) { yield(); if (rng.flip()) throw std::runtime_error("prepare refuses"); throw 7; } prepares.fetch_add(1, std::memory_order_relaxed); return true; }
    static void add(std::atomic<uint64_t> &a, uint64_t n = 1) { a.fetch_add(n, std::memory_order_relaxed); }
    void work(void)
    {
        add(works);
        if (exact)
        {
            auto p = input(0); auto o = output(0); const size_t n = std::min({p->elements(), o->elements(), size_t(1 + rng.below(50))});
            VF_CHECK(p->totalElements() == im["0"]->elems && o->totalElements() == om["0"]->elems, "port-counter-differs", id << " " << p->totalElements() << "/" << o->totalElements() << " counted " << im["0"]->elems << "/" << om["0"]->elems);
            if (!n) return;
            memcpy(o->buffer().as<void *>(), p->buffer().as<const void *>(), n * o->dtype().size()); p->consume(n); o->produce(n);
            add(im["0"]->elems, n); add(om["0"]->elems, n); add(om["0"]->bufs); consumedAny = producedAny = true; yield(); return;
        }
        for (auto &e : im)
        {
            auto p = input(e.first); auto &m = *e.second;
            VF_CHECK(p->totalElements() == m.elems && p->totalLabels() == m.labels && p->totalMessages() == m.msgs, "port-counter-differs",
                id << "." << e.first << " elements " << p->totalElements() << " labels " << p->totalLabels() << " messages " << p->totalMessages() << " counted " << m.elems << " " << m.labels << " " << m.msgs);
            if (rng.chance(1, 12)) { const size_t q = rng.below(6); p->setReserve(q); m.reserve = q; }
            if (style != 1) for (unsigned k = rng.below(3); k > 0; k--)
            {
                const bool shown = p->hasMessage(); if (!shown && !rng.chance(1, 6)) continue; if (shown && rng.chance(1, 3)) p->peekMessage();
                const bool had = bool(p->popMessage()); VF_CHECK(had || !shown, "message-vanished", id); if (had) { add(m.msgs); consumedAny = true; } else add(emptyPops);
                VF_CHECK(p->totalMessages() == m.msgs, "port-counter-differs", id << "." << e.first << (had ? " pop" : " pop of nothing") << " messages " << p->totalMessages() << " counted " << m.msgs);
            }
            if (rng.chance(1, 8)) { std::vector<Label> ls; for (auto &l : p->labels()) ls.push_back(l); if (!ls.empty()) { const auto b = p->totalLabels(); p->removeLabel(rng.pick(ls)); add(m.labels); consumedAny = true; add(removed); VF_CHECK(p->totalLabels() == b + 1, "port-counter-differs", "removeLabel"); } }
            const size_t n = style == 2 && m.elems > 60 ? 0 : rng.below(p->elements() + 1);
            if (n) { if (rng.chance(1, 4)) { auto b = p->takeBuffer(); if (rng.flip()) held = b; } p->consume(n); add(m.elems, n); consumedAny = true; }
            if (rng.chance(1, 10)) held = BufferChunk();
        }
        for (auto &e : om)
        {
            auto o = output(e.first); auto &m = *e.second; auto &s = *str[e.first]; auto &sd = snd[e.first]; sd.begin();
            VF_CHECK(o->totalElements() == m.elems && o->totalBuffers() == m.bufs && o->totalLabels() == m.labels && o->totalMessages() == m.msgs, "port-counter-differs",
                id << "." << e.first << " elements " << o->totalElements() << " buffers " << o->totalBuffers() << " labels " << o->totalLabels() << " messages " << o->totalMessages() << " counted " << m.elems << " " << m.bufs << " " << m.labels << " " << m.msgs);
            if (budget == 0) continue; budget--;
            for (unsigned k = rng.below(3); k > 0; k--)
            {
                bool produced = false; const size_t n = sd.send(rng, o, s, 1 + rng.below(30), produced);
                if (n) { add(m.elems, n); add(m.bufs); producedAny = true; } if (produced) break;
            }
            for (unsigned k = rng.below(3); k > 0; k--) { o->postLabel(Label("l" + std::to_string(k), Object(int(k)), rng.below(9))); add(m.labels); producedAny = true; }
            if (rng.chance(1, 4)) { o->postMessage(int(k0++)); add(m.msgs); producedAny = true; }
        }
        if (rng.chance(1, 8)) { emitSignal("sig", 5); sigs++; }
        if (rng.chance(1, 16)) throw Pothos::RuntimeException("work refuses"); //what was done before still counts
        if (budget || rng.chance(3, 4)) yield();
    }
    void propagateLabels(const InputPort *p)
    {
        size_t n = 0; for (auto &l : p->labels()) { (void)l; n++; }
        add(im[p->name()]->labels, n); consumedAny = true;
        if (exact) { for (auto &l : p->labels()) output(0)->postLabel(l); add(om["0"]->labels, n); if (n) producedAny = true; }
        else if (rng.chance(1, 10)) throw std::runtime_error("labels refused");
    }
    std::atomic<uint64_t> emptyPops{0}, removed{0}; uint64_t k0 = 0, sigs = 0; BufferChunk held;
};
typedef std::shared_ptr<Node> NodeP;
struct RunEdge { size_t a, b; std::string sp, dp; };
typedef std::map<std::string, std::vector<long long>> Flat; //path -> value(s), for monotonicity

//! checks common to every snapshot of one block
static void checkStats(Node &n, const json &j, bool rest, const std::string &name)
{
    auto bad = [&](const std::string &k, const std::string &d) { violation(k, n.id + ": " + d + " in " + j.dump().substr(0, 1500)); };
    VF_CHECK(j.at("blockName").get<std::string>() == name, "block-name", j.at("blockName") << " expected " << name);
    const auto tw = j.at("totalTimeWork").get<long long>(), tp = j.at("totalTimePreWork").get<long long>(), tq = j.at("totalTimePostWork").get<long long>(), tt = j.at("totalTimeTask").get<long long>();
    const auto now = ticks(), nt = j.at("numTaskCalls").get<long long>(), nw = j.at("numWorkCalls").get<long long>(), qt = j.at("timeStatsQuery").get<long long>();
    if (tw < 0 || tp < 0 || tq < 0 || tt < 0 || tw + tp + tq > tt) bad("time-totals-do-not-nest", "");
    if (tt > now - n.born) bad("time-total-exceeds-life", std::to_string(now - n.born));
    if (nw > nt) bad("more-work-than-tasks", "");
    if (nt == 0 && tt != 0) bad("time-without-tasks", ""); if (nw == 0 && tw != 0) bad("time-without-work", "");
    if (qt < n.born || qt > now) bad("query-time-wrong", "");
    if (j.at("tickRatioNum").get<long long>() != Clk::period::num || j.at("tickRatioDen").get<long long>() != Clk::period::den) bad("tick-ratio", "");
    for (auto k : {"timeLastConsumed", "timeLastProduced", "timeLastWork"}) { const auto t = j.at(k).get<long long>(); if (t != 0 && (t < n.born || t > qt)) bad("last-time-out-of-range", k); }
    size_t ni = j.count("inputStats") ? j.at("inputStats").size() : 0, no = j.count("outputStats") ? j.at("outputStats").size() : 0;
    if (ni != n.im.size() || no != n.om.size()) { bad("ports-in-stats", ""); return; }
    long long exIn = -1, exInL = -1;
    for (auto dir : {0, 1}) if (dir ? no : ni) for (auto &p : j.at(dir ? "outputStats" : "inputStats"))
    {
        const auto pn = p.at("portName").get<std::string>(); auto &mons = dir ? n.om : n.im; if (!mons.count(pn)) { bad("ports-in-stats", pn); continue; }
        auto &m = *mons[pn]; auto u = [&](const char *k) { return p.at(k).get<unsigned long long>(); };
        const DType dt = dir ? n.output(pn)->dtype() : n.input(pn)->dtype();
        if (p.at("portAlias").get<std::string>() != (dir ? n.output(pn)->alias() : n.input(pn)->alias())) bad("alias-in-stats", pn);
        if (u("dtypeSize") != dt.size() || p.at("dtypeMarkup").get<std::string>() != dt.toMarkup()) bad("dtype-in-stats", pn);
        if (!dir && n.exact) { exIn = u("totalElements"); exInL = u("totalLabels"); }
        if (dir && n.exact) { if (exIn != (long long)u("totalElements")) bad("snapshot-torn", "elements"); if (exInL != (long long)u("totalLabels")) bad("snapshot-torn", "labels"); }
        if (!dir) { if (u("frontBytes") > u("enqueuedBytes")) bad("front-exceeds-enqueued", pn); if (rest && (u("frontBytes") != 0) != (u("enqueuedBytes") != 0)) bad("front-missing", pn); }
        if (rest)
        {
            if (u("totalElements") != m.elems) bad("total-elements-differs", pn + " counted " + std::to_string(m.elems));
            if (u("totalLabels") != m.labels) bad("total-labels-differs", pn + " counted " + std::to_string(m.labels));
            if (u("totalMessages") != m.msgs) bad("total-messages-differs", pn + " counted " + std::to_string(m.msgs));
            if (dir && u("totalBuffers") != m.bufs) bad("total-buffers-differs", pn + " counted " + std::to_string(m.bufs));
            if (!dir && u("reserveElements") != m.reserve) bad("reserve-differs", pn + " set " + std::to_string(m.reserve));
        }
    }
    if (rest)
    {
        if (nw != (long long)n.works) bad("work-calls-differ", "counted " + std::to_string(n.works));
        if (nt != (long long)n.prepares) bad("task-calls-differ", "counted " + std::to_string(n.prepares));
        if (n.consumedAny && j.at("timeLastConsumed").get<long long>() == 0) bad("last-consumed-unset", "");
        if (n.producedAny && j.at("timeLastProduced").get<long long>() == 0) bad("last-produced-unset", "");
        if (n.im.empty() && j.at("timeLastConsumed").get<long long>() != 0) bad("last-consumed-without-inputs", "");
        if ((n.works != 0) != (j.at("timeLastWork").get<long long>() != 0)) bad("last-work-wrong", "");
    }
}
struct Bracket { std::map<std::string, std::pair<uint64_t, uint64_t>> v; };
//! counters as of now, read block by block
static std::map<std::string, uint64_t> readMon(const std::vector<NodeP> &ns)
{
    std::map<std::string, uint64_t> o;
    for (auto &n : ns)
    {
        o[n->id + "/w"] = n->works; o[n->id + "/t"] = n->prepares;
        for (auto d : {0, 1}) for (auto &m : d ? n->om : n->im) { const auto k = n->id + (d ? "/o/" : "/i/") + m.first; o[k + "/e"] = m.second->elems; o[k + "/l"] = m.second->labels; o[k + "/m"] = m.second->msgs; if (d) o[k + "/b"] = m.second->bufs; }
    }
    return o;
}
static std::map<std::string, uint64_t> readJson(const std::vector<NodeP> &ns, const json &all)
{
    std::map<std::string, uint64_t> o;
    for (auto &n : ns)
    {
        auto &j = all.at(n->uid()); o[n->id + "/w"] = j.at("numWorkCalls"); o[n->id + "/t"] = j.at("numTaskCalls");
        for (auto d : {0, 1}) { const char *k0 = d ? "outputStats" : "inputStats"; if (!j.count(k0)) continue; for (auto &p : j.at(k0)) { const auto k = n->id + (d ? "/o/" : "/i/") + p.at("portName").get<std::string>(); o[k + "/e"] = p.at("totalElements"); o[k + "/l"] = p.at("totalLabels"); o[k + "/m"] = p.at("totalMessages"); o[k + "/b"] = p.at("totalBuffers"); } }
    }
    return o;
}
static Proxy actorOf(const NodeP &n) { auto env = ProxyEnvironment::make("managed"); return env->convertObjectToProxy(Object(std::static_pointer_cast<Block>(n))).get("_actor"); }

static void runCase(Rng &r, uint64_t)
{
    std::string sig; const DType dt = r.pick(std::vector<DType>{"uint8", "int16", "float64", "complex_float32", DType("uint8", 3), DType("custom", 7), DType("float32", 4)});
    std::vector<NodeP> ns; auto t = Topology::make(), sub = Topology::make(); const bool nested = r.flip(); const std::string subName = "sub" + std::to_string(r.below(9)); sub->setName(subName);
    //layers: sources -> mids (maybe exact) -> sinks
    const size_t nS = 1 + r.below(2), nM = 1 + r.below(3), nK = 1 + r.below(2); std::vector<RunEdge> edges;
    auto mk = [&](size_t i, size_t o, bool ex) { auto n = std::make_shared<Node>(r.fork(), i, o, ex, dt); n->id = "n" + std::to_string(ns.size()); n->setName(n->id); n->path = n->id; if (r.flip()) n->setThreadPool(randPool(r, &sig)); if (i && r.chance(1, 3)) n->setInputAlias("0", "an alias"); if (o && r.chance(1, 3)) n->setOutputAlias("0", "other"); ns.push_back(n); return ns.size() - 1; };
    std::vector<size_t> S, M, K; for (size_t i = 0; i < nS; i++) S.push_back(mk(0, 1 + r.below(2), false)); for (size_t i = 0; i < nM; i++) { const bool ex = r.flip(); M.push_back(mk(ex ? 1 : 1 + r.below(2), ex ? 1 : 1 + r.below(2), ex)); } for (size_t i = 0; i < nK; i++) K.push_back(mk(1 + r.below(2), 0, false));
    auto names = [&](const NodeP &n, bool in) { std::vector<std::string> v; for (auto &m : in ? n->im : n->om) v.push_back(m.first); return v; };
    std::set<std::string> used; auto con = [&](size_t a, size_t b) { RunEdge e{a, b, r.pick(names(ns[a], false)), r.pick(names(ns[b], true))}; std::ostringstream k; k << a << e.sp << ">" << b << e.dp; if (!used.insert(k.str()).second) return; edges.push_back(e); sig += k.str() + " "; };
    for (auto m : M) con(r.pick(S), m); for (auto k : K) con(r.pick(M), k); for (unsigned k = r.below(3); k > 0; k--) con(r.pick(S), r.flip() ? r.pick(M) : r.pick(K));
    //one mid may live in a nested topology, reached through boundary ports (single flow on each side)
    size_t inner = nested ? M[0] : size_t(-1); std::set<std::string> bIn, bOut;
    for (auto &e : edges)
    {
        if (e.b == inner) { const std::string b = "i" + e.dp; if (bIn.insert(b).second) sub->connect(sub, b, ns[e.b], e.dp); t->connect(ns[e.a], e.sp, sub, b); }
        else if (e.a == inner) { const std::string b = "o" + e.sp; if (bOut.insert(b).second) sub->connect(ns[e.a], e.sp, sub, b); t->connect(sub, b, ns[e.b], e.dp); }
        else t->connect(ns[e.a], e.sp, ns[e.b], e.dp);
    }
    if (r.flip()) { t->connect(ns[S[0]], "sig", ns[K[0]], "on"); sig += "s"; }
    std::set<size_t> in; for (auto &e : edges) { in.insert(e.a); in.insert(e.b); } in.insert(S[0]); in.insert(K[0]);
    std::vector<NodeP> live; for (size_t i = 0; i < ns.size(); i++) { bool u = false; for (auto &e : edges) if (e.a == i || e.b == i) u = true; if (u) live.push_back(ns[i]); }
    for (auto &n : live) n->path = (nested && n == ns[inner]) ? subName + "/" + n->id : n->id;
    //before anything ran, every total is zero
    for (auto &n : ns) { const auto j = json::parse(actorOf(n).call<std::string>("queryWorkStats")); checkStats(*n, j, true, n->id); VF_CHECK(j.at("totalTimeTask") == 0 && j.at("totalTimeWork") == 0 && j.at("totalTimePreWork") == 0 && j.at("totalTimePostWork") == 0 && j.at("numTaskCalls") == 0, "totals-not-zero-at-start", j.dump().substr(0, 600)); count("fresh_blocks"); }
    t->commit();
    auto query = [&](std::map<std::string, uint64_t> &prev, unsigned rounds, uint64_t seed)
    {
        Rng q(seed);
        for (unsigned k = 0; k < rounds; k++)
        {
            const auto lo = readMon(live); const auto js = json::parse(t->queryJSONStats()); const auto hi = readMon(live);
            for (auto &n : live) if (!js.count(n->uid())) { violation("block-missing-from-stats", n->id); return; }
            for (auto it = js.begin(); it != js.end(); ++it) { bool known = false; for (auto &n : ns) if (n->uid() == it.key()) known = true; VF_CHECK(known, "unknown-block-in-stats", it.key()); }
            for (auto &n : live) checkStats(*n, js.at(n->uid()), false, n->path);
            const auto got = readJson(live, js);
            for (auto &g : got)
            {
                auto l = lo.find(g.first), h = hi.find(g.first); if (l != lo.end()) VF_CHECK(l->second <= g.second && g.second <= h->second, "counter-outside-observed-range", g.first << " reported " << g.second << " observed " << l->second << ".." << h->second);
                auto p = prev.find(g.first); if (p != prev.end()) VF_CHECK(p->second <= g.second, "counter-decreased", g.first << " from " << p->second << " to " << g.second);
            }
            prev = got; count("live_snapshots"); if (q.flip()) std::this_thread::sleep_for(std::chrono::microseconds(q.below(800)));
        }
    };
    std::map<std::string, uint64_t> p1, p2; const auto s1 = r.next(), s2 = r.next(); const unsigned rounds = 2 + r.below(5); const bool two = r.flip();
    std::thread th; if (two) th = std::thread([&] { query(p2, rounds, s2); }); query(p1, rounds, s1); if (two) th.join();
    if (r.flip()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
    //an immediate stop: everything still queued stays queued and has to be accounted for
    t->disconnectAll(r.flip()); t->commit();
    std::map<std::string, json> fin; uint64_t enq = 0;
    for (auto &n : ns)
    {
        const auto j = json::parse(actorOf(n).call<std::string>("queryWorkStats")); checkStats(*n, j, true, n->id);
        for (auto d : {0, 1}) { const char *k0 = d ? "outputStats" : "inputStats"; if (j.count(k0)) for (auto &p : j.at(k0)) fin[n->id + (d ? "/o/" : "/i/") + p.at("portName").get<std::string>()] = p; }
        for (auto &p : {&p1, &p2}) for (auto &e : *p) if (e.first == n->id + "/w") VF_CHECK(e.second <= n->works, "counter-decreased", e.first);
        count("works", n->works); count("empty_pops", n->emptyPops); count("labels_removed", n->removed); count("rest_snapshots");
    }
    for (auto &n : ns) for (auto &m : n->im)
    {
        unsigned long long e = 0, b = 0, l = 0, g = 0; for (auto &x : edges) if (ns[x.b] == n && x.dp == m.first) { auto &s = fin[ns[x.a]->id + "/o/" + x.sp]; e += s.at("totalElements").get<unsigned long long>(); b += s.at("totalBuffers").get<unsigned long long>(); l += s.at("totalLabels").get<unsigned long long>(); g += s.at("totalMessages").get<unsigned long long>(); }
        auto &d = fin[n->id + "/i/" + m.first]; auto u = [&](const char *k) { return d.at(k).get<unsigned long long>(); };
        VF_CHECK(e * dt.size() == u("totalElements") * dt.size() + u("enqueuedBytes"), "elements-not-conserved", n->id << "." << m.first << " sent " << e << " consumed " << u("totalElements") << " enqueued " << u("enqueuedBytes") << " bytes of " << dt.size());
        VF_CHECK(b == u("totalBuffers"), "buffers-not-conserved", n->id << "." << m.first << " sent " << b << " arrived " << u("totalBuffers"));
        VF_CHECK(l == u("totalLabels") + u("enqueuedLabels"), "labels-not-conserved", n->id << "." << m.first << " sent " << l << " consumed " << u("totalLabels") << " enqueued " << u("enqueuedLabels"));
        VF_CHECK(g == u("totalMessages") + u("enqueuedMessages"), "messages-not-conserved", n->id << "." << m.first << " sent " << g << " popped " << u("totalMessages") << " enqueued " << u("enqueuedMessages"));
        enq += u("enqueuedBytes") + u("enqueuedLabels") + u("enqueuedMessages"); count("elements", e); count("labels", l); count("messages", g); count("port_balances");
    }
    if (enq) count("stopped_with_backlog"); if (nested) count("nested_designs");
    distinct(sig); sample(sig + dt.toString());
}

/***********************************************************************
 * queue: an idle block's queues against pushes
 **********************************************************************/
struct Idle : Block { Idle(const DType &dt) { setupInput(0, dt); setupOutput(0, dt); } OutputPort *o(void) { return output(0); } };
static void queueCase(Rng &r, uint64_t)
{
    const DType dt = r.pick(std::vector<DType>{"uint8", "int32", "complex_float64", DType("uint8", 3)}); auto a = std::make_shared<Idle>(dt);
    auto env = ProxyEnvironment::make("managed"); auto actor = env->convertObjectToProxy(Object(std::static_pointer_cast<Block>(a))).get("_actor");
    uint64_t bytes = 0, bufs = 0, labels = 0, msgs = 0; std::string sig; std::vector<ManagedBuffer> own; std::set<size_t> uniq; auto pool = BufferManager::make("generic", [] { BufferManagerArgs x; x.numBuffers = 64; x.bufferSize = 256; return x; }());
    const unsigned steps = r.range(3, 25);
    for (unsigned k = 0; k < steps; k++)
    {
        switch (r.below(8))
        {
        case 0: case 1: { const size_t n = 1 + r.below(20); BufferChunk b(dt, n); a->input(0)->pushBuffer(b); bytes += n * dt.size(); bufs++; if (b.getManagedBuffer()) own.push_back(b.getManagedBuffer()); sig += "b"; break; }
        case 2: if (!pool->empty()) { auto b = pool->front(); b.length = dt.size() * (1 + r.below(3)); b.dtype = dt; pool->pop(b.length); a->input(0)->pushBuffer(b); bytes += b.length; bufs++; uniq.insert(b.getManagedBuffer().getBuffer().getAddress()); sig += "m"; } break;
        case 3: a->input(0)->pushLabel(Label("x", Object(), dt.size() * r.below(50))); labels++; sig += "l"; break;
        case 4: case 5: a->input(0)->pushMessage(r.flip() ? Object(int(k)) : Object()); msgs++; sig += "g"; break;
        case 6: { BufferChunk b(DType("uint8", dt.size() + 1 + r.below(4)), 3); a->input(0)->pushBuffer(b); sig += "X"; count("mismatched_pushes"); break; } //dropped, not counted
        default: if (r.chance(1, 3)) { a->input(0)->clear(); bytes = labels = msgs = 0; uniq.clear(); own.clear(); sig += "c"; count("clears"); }
        }
        const auto j = json::parse(actor.call<std::string>("queryWorkStats")); auto &p = j.at("inputStats").at(0); auto u = [&](const char *x) { return p.at(x).get<uint64_t>(); };
        VF_CHECK(u("enqueuedBytes") == bytes, "enqueued-bytes", u("enqueuedBytes") << " pushed " << bytes << " after " << sig);
        VF_CHECK(u("totalBuffers") == bufs, "total-buffers", u("totalBuffers") << " pushed " << bufs << " after " << sig);
        VF_CHECK(u("enqueuedLabels") == labels, "enqueued-labels", u("enqueuedLabels") << " pushed " << labels << " after " << sig);
        VF_CHECK(u("enqueuedMessages") == msgs, "enqueued-messages", u("enqueuedMessages") << " pushed " << msgs << " after " << sig);
        VF_CHECK(u("enqueuedBuffers") == uniq.size() + own.size(), "enqueued-buffers", u("enqueuedBuffers") << " distinct managed buffers pushed " << uniq.size() + own.size() << " after " << sig);
        VF_CHECK(u("totalElements") == 0 && u("totalLabels") == 0 && u("totalMessages") == 0, "consumed-without-work", p.dump());
        VF_CHECK(u("frontBytes") <= bytes && (u("frontBytes") > 0) == (bytes > 0), "front-bytes", u("frontBytes") << " of " << bytes << " after " << sig); count("queue_checks");
    }
    distinct(sig); sample(sig);
}

/***********************************************************************
 * setup: block and topology descriptions against a model
 **********************************************************************/
struct PM { std::string name, domain, alias; DType dt; bool sig = false, autoMade = false; };
struct Setup : Block
{
    void callV(int x) { last = x; } int callI(int x) { return x + 1; }
    int last = 0;
    void regV(const std::string &n) { registerCall(this, n, &Setup::callV); } void regI(const std::string &n) { registerCall(this, n, &Setup::callI); }
    void sigR(const std::string &n) { registerSignal(n); } void slotR(const std::string &n) { registerSlot(n); } void probeR(const std::string &n, const std::string &a, const std::string &b) { registerProbe(n, a, b); }
    InputPort *si(const std::string &n, const DType &d, const std::string &m) { return setupInput(n, d, m); } OutputPort *so(const std::string &n, const DType &d, const std::string &m) { return setupOutput(n, d, m); }
    InputPort *sii(size_t n, const DType &d) { return setupInput(n, d); } OutputPort *soi(size_t n, const DType &d) { return setupOutput(n, d); }
};
static int idxOf(const std::string &n) { for (char c : n) if (c < '0' || c > '9') return -1; return n.size() > 6 || n.empty() ? -1 : std::stoi(n); }
template <typename P> static bool slotty(P *p);
template <> bool slotty(InputPort *p) { return p->isSlot(); }
template <> bool slotty(OutputPort *p) { return p->isSignal(); }
template <typename P> static void checkPorts(const std::string &w, const std::vector<PM> &m, const std::vector<PortInfo> &info, const std::vector<std::string> &names, const std::map<std::string, P *> &all, const std::vector<P *> &idx, const std::string &hist)
{
    auto bad = [&](const std::string &k, const std::string &d) { violation(k, w + " " + d + " after " + hist); };
    if (names.size() != m.size() || info.size() != m.size() || all.size() != m.size()) { bad("port-list-size", std::to_string(names.size()) + "/" + std::to_string(info.size()) + "/" + std::to_string(all.size()) + " expected " + std::to_string(m.size())); return; }
    size_t top = 0;
    for (size_t i = 0; i < m.size(); i++)
    {
        auto &e = m[i]; const std::string al = e.alias.empty() ? e.name : e.alias; const int ix = idxOf(e.name);
        if (names[i] != e.name || info[i].name != e.name) bad("port-name", names[i] + "/" + info[i].name + " expected " + e.name);
        if (info[i].alias != al || info[i].isSigSlot != e.sig || !(info[i].dtype == e.dt)) bad("port-info", e.name + " alias " + info[i].alias + " expected " + al + ", type " + info[i].dtype.toString() + " expected " + e.dt.toString());
        auto it = all.find(e.name); if (it == all.end()) { bad("port-missing", e.name); continue; }
        P *p = it->second; if (p->name() != e.name || p->index() != ix || !(p->dtype() == e.dt) || p->domain() != e.domain || p->alias() != al || slotty(p) != e.sig) bad("port-state", e.name + " index " + std::to_string(p->index()) + " domain " + p->domain() + " alias " + p->alias());
        if (ix >= 0) { top = std::max<size_t>(top, ix + 1); if (size_t(ix) >= idx.size() || idx[ix] != p) bad("indexed-port", e.name); }
    }
    size_t nn = 0; for (auto p : idx) if (p) nn++; size_t want = 0; for (auto &e : m) if (idxOf(e.name) >= 0) want++;
    if (idx.size() != top || nn != want) bad("indexed-port-count", std::to_string(idx.size()) + "/" + std::to_string(nn) + " expected " + std::to_string(top) + "/" + std::to_string(want));
}
static void setupCase(Rng &r, uint64_t)
{
    auto b = std::make_shared<Setup>(); std::vector<PM> mi, mo; std::map<std::string, int> calls; std::set<std::string> autoSlots; std::string h; //calls: 1 void, 2 int
    auto env = ProxyEnvironment::make("managed"); auto proxy = env->convertObjectToProxy(Object(std::static_pointer_cast<Block>(b))); auto actor = proxy.get("_actor");
    auto find = [](std::vector<PM> &v, const std::string &n) { for (auto &p : v) if (p.name == n) return &p; return (PM *)nullptr; };
    const std::vector<std::string> names = {"0", "1", "2", "3", "7", "10", "in", "out", "a b", "set", "setX", "_priv", "probeGain", "gain", "gainTriggered", "x0", "é", "99999999999", "4294967296"};
    const std::vector<std::string> doms = {"", "", "gpu", "dma 1"};
    auto type = [&] { return r.chance(1, 4) ? DType() : randDType(r); };
    for (unsigned k = r.range(3, 24); k > 0; k--)
    {
        std::string n = r.chance(1, 40) ? std::string() : r.pick(names); std::string err; bool want = true; const unsigned what = r.below(13);
        switch (what)
        {
        case 0: case 1:
        {
            const DType d = type(); const std::string dom = r.pick(doms); want = !n.empty() && !find(mi, n); h += " si(" + n + ")"; const bool viaProxy = r.chance(1, 4);
            err = caught([&] { if (viaProxy) { proxy.call("setupInput", n, d, dom); return; } auto p = b->si(n, d, dom); VF_CHECK(p == b->input(n), "setup-returns-other-port", n); });
            if (want && err.empty()) { PM m; m.name = n; m.domain = dom; m.dt = d; mi.push_back(m); } break;
        }
        case 2: case 3:
        {
            const DType d = type(); const std::string dom = r.pick(doms); want = !n.empty() && !find(mo, n); h += " so(" + n + ")"; const bool viaProxy = r.chance(1, 4);
            err = caught([&] { if (viaProxy) { proxy.call("setupOutput", n, d, dom); return; } auto p = b->so(n, d, dom); VF_CHECK(p == b->output(n), "setup-returns-other-port", n); });
            if (want && err.empty()) { PM m; m.name = n; m.domain = dom; m.dt = d; mo.push_back(m); } break;
        }
        case 4: { const size_t i = r.below(6); const DType d = type(); const bool in = r.flip(); auto &v = in ? mi : mo; want = !find(v, std::to_string(i)); h += in ? " sii" : " soi"; h += std::to_string(i); err = caught([&] { if (in) { auto p = b->sii(i, d); VF_CHECK(p == b->input(i), "setup-returns-other-port", i); } else { auto p = b->soi(i, d); VF_CHECK(p == b->output(i), "setup-returns-other-port", i); } }); if (want && err.empty()) { PM m; m.name = std::to_string(i); m.dt = d; v.push_back(m); } break; }
        case 5: want = !n.empty() && !find(mo, n); h += " sig(" + n + ")"; err = caught([&] { b->sigR(n); }); if (want && err.empty()) { PM m; m.name = n; m.sig = true; mo.push_back(m); } break;
        case 6: { const bool au = autoSlots.count(n) != 0; want = !n.empty() && (au || !find(mi, n)); h += " slot(" + n + ")"; err = caught([&] { b->slotR(n); }); if (want && err.empty() && !au) { PM m; m.name = n; m.sig = true; mi.push_back(m); } break; }
        case 7: if (n.empty() || calls.count(n)) break; { const bool v = r.flip(); h += v ? " cv(" : " ci("; h += n + ")"; err = caught([&] { if (v) b->regV(n); else b->regI(n); }); calls[n] = v ? 1 : 2; if (v && n[0] != '_' && !find(mi, n)) { PM m; m.name = n; m.sig = true; mi.push_back(m); autoSlots.insert(n); } break; }
        case 8:
        {
            //a probe takes its call by name, a slot to trigger it and a signal for the answer
            if (n.empty()) break; std::string sg = r.flip() ? "" : "sg" + std::to_string(r.below(3)), sl = r.flip() ? "" : "sl" + std::to_string(r.below(3)); std::string esg = sg.empty() ? n + "Triggered" : sg, esl = sl; if (sl.empty()) { esl = n; esl[0] = char(toupper((unsigned char)esl[0]) & 0xff); if ((unsigned char)n[0] >= 0x80) break; esl = "probe" + esl; }
            if (find(mi, esl) || find(mo, esg)) break; //a refused probe may leave its slot behind
            h += " probe(" + n + "," + sg + "," + sl + ")"; err = caught([&] { b->probeR(n, sg, sl); }); if (err.empty()) { PM m; m.name = esl; m.sig = true; mi.push_back(m); m.name = esg; mo.push_back(m); count("probes"); } break;
        }
        case 9: { const bool in = r.flip(); auto &v = in ? mi : mo; auto p = find(v, n); want = p != nullptr; const std::string al = r.pick(std::vector<std::string>{"alias", "x y", "0", "", "z"}); h += in ? " ai(" : " ao("; h += n + "," + al + ")"; err = caught([&] { if (in) b->setInputAlias(n, al); else b->setOutputAlias(n, al); }); if (p && err.empty()) p->alias = al; break; }
        case 10: case 11:
        {
            const bool in = r.flip(); auto &v = in ? mi : mo; if (r.flip()) n = std::to_string(1 + r.below(4)); h += in ? " aai(" : " aao("; h += n + ")"; if (n.empty()) break; err = caught([&] { actor.call(in ? "autoAllocateInput" : "autoAllocateOutput", n); });
            const int ix = idxOf(n); if (ix >= 0 && !find(v, n)) for (int i = ix - 1; i >= 0; i--) if (auto lo = find(v, std::to_string(i))) { PM m; m.name = n; m.dt = lo->dt; m.domain = lo->domain; m.autoMade = true; v.push_back(m); count("auto_ports"); break; }
            break;
        }
        default: { const bool in = r.flip(); auto &v = in ? mi : mo; if (r.chance(3, 4)) for (auto &e : v) if (e.autoMade && r.flip()) n = e.name; h += in ? " adi(" : " ado("; h += n + ")"; if (n.empty()) break; err = caught([&] { actor.call(in ? "autoDeleteInput" : "autoDeleteOutput", n); }); for (auto it = v.begin(); it != v.end(); ++it) if (it->name == n && it->autoMade) { v.erase(it); count("auto_ports_removed"); break; } }
        }
        VF_CHECK(err.empty() == want, want ? "setup-refused" : "setup-accepted", h << ": " << err); if (!want) count("refused_setups");
        checkPorts("input", mi, b->inputPortInfo(), b->inputPortNames(), b->allInputs(), b->inputs(), h); checkPorts("output", mo, b->outputPortInfo(), b->outputPortNames(), b->allOutputs(), b->outputs(), h);
        VF_CHECK(b->workInfo().inputPointers.size() == b->inputs().size() && b->workInfo().outputPointers.size() == b->outputs().size(), "work-info-size", b->workInfo().inputPointers.size() << "/" << b->inputs().size() << " " << b->workInfo().outputPointers.size() << "/" << b->outputs().size() << " after " << h);
        count("setup_steps");
    }
    //absent ports and calls are refused
    for (auto &n : names) { VF_CHECK(caught([&] { b->input(n); }).empty() == (find(mi, n) != nullptr), "input-lookup", n << " after " << h); VF_CHECK(caught([&] { b->output(n); }).empty() == (find(mo, n) != nullptr), "output-lookup", n << " after " << h); }
    VF_CHECK(!caught([&] { b->input(b->inputs().size()); }).empty() && !caught([&] { b->output(b->outputs().size() + r.below(5)); }).empty(), "index-out-of-range-accepted", h);
    for (auto &n : names)
    {
        auto o = find(mo, n); const bool signal = o && o->sig; if (signal) continue; const int v = int(r.range(-99, 99)); Object res; const auto err = caught([&] { res = b->call(n, v); }); const int c = calls.count(n) ? calls[n] : 0;
        VF_CHECK(err.empty() == (c != 0), "call-registry", n << " registered " << c << ": " << err << " after " << h); if (c == 1) VF_CHECK(b->last == v && !res, "call-result", n); if (c == 2) VF_CHECK(res && res.convert<int>() == v + 1, "call-result", n); count("calls_checked");
    }
    //statistics list the stream ports only
    const auto j = json::parse(actor.call<std::string>("queryWorkStats")); for (auto d : {0, 1}) { std::vector<std::string> want, got; for (auto &p : d ? mo : mi) if (!p.sig) want.push_back(p.name); const char *k = d ? "outputStats" : "inputStats"; if (j.count(k)) for (auto &p : j.at(k)) { got.push_back(p.at("portName")); auto m = find(d ? mo : mi, got.back()); if (m) VF_CHECK(p.at("dtypeSize").get<size_t>() == m->dt.size() && p.at("dtypeMarkup").get<std::string>() == m->dt.toMarkup() && p.at("portAlias").get<std::string>() == (m->alias.empty() ? m->name : m->alias), "stats-port-info", p.dump()); } VF_CHECK(want == got, "stats-ports", k << " after " << h); }
    const std::string nm = randString(r, 12); b->setName(nm); VF_CHECK(b->getName() == nm && proxy.call<std::string>("getName") == nm, "name-reads-back", nm);
    distinct(h); sample(h);
}

/***********************************************************************
 * topo: topology boundary ports, aliases, dumps and thread pools
 **********************************************************************/
struct Leaf : Block { Leaf(const DType &dt, const std::string &dom) { setupInput(0, dt, dom); setupInput("x", dt); setupOutput(0, dt, dom); setupOutput("y", dt); registerSignal("sig"); registerSlot("slot"); } };
static void topoCase(Rng &r, uint64_t)
{
    const DType dt = r.pick(std::vector<DType>{"int8", "float32", DType("complex_int16", 2)}); std::vector<std::shared_ptr<Leaf>> L; for (int i = 0; i < 3; i++) { L.push_back(std::make_shared<Leaf>(dt, "")); L.back()->setName("L" + std::to_string(i)); }
    auto t = Topology::make(); std::string h; std::vector<std::pair<std::string, PM>> fi, fo; //flows of the boundary: inner key -> port
    std::map<std::string, std::string> alI, alO; struct F { int dir; std::string port; size_t leaf; std::string in; bool operator==(const F &o) const { return dir == o.dir && port == o.port && leaf == o.leaf && in == o.in; } }; std::vector<F> flows; std::vector<std::pair<std::string, std::string>> thru;
    //the port called s* is a slot or signal, the others are streams, so that several flows on one port agree
    const std::vector<std::string> pn = {"p", "q", "0", "1", "s"}, pa = {"p", "q", "0", "1", "s", "thru", "thru2"};
    for (unsigned k = r.range(2, 16); k > 0; k--)
    {
        const unsigned what = r.below(8);
        if (what < 4)
        {
            F f; f.dir = int(r.below(2)); f.port = r.pick(pn); f.leaf = r.below(3); f.in = f.port == "s" ? (f.dir ? "sig" : "slot") : (r.flip() ? "0" : f.dir ? "y" : "x"); bool dup = false; for (auto &x : flows) if (x == f) dup = true;
            bool first = true; for (auto &x : flows) if (x.dir == f.dir && x.port == f.port) first = false; h += (f.dir ? " co:" : " ci:") + f.port + ">" + std::to_string(f.leaf) + f.in;
            const auto err = caught([&] { if (f.dir) t->connect(L[f.leaf], f.in, t, f.port); else t->connect(t, f.port, L[f.leaf], f.in); }); VF_CHECK(err.empty() != dup, dup ? "duplicate-accepted" : "connect-refused", h << " " << err);
            if (!dup) { flows.push_back(f); if (first) (f.dir ? alO : alI).erase(f.port); }
        }
        else if (what == 4 && r.chance(1, 3))
        {
            const std::string a = r.pick(std::vector<std::string>{"thru", "thru2"}), b = r.pick(std::vector<std::string>{"thru", "thru2"}); bool dup = false; for (auto &x : thru) if (x.first == a && x.second == b) dup = true; bool fa = true, fb = true; for (auto &x : thru) { if (x.first == a) fa = false; if (x.second == b) fb = false; } h += " thru:" + a + ">" + b;
            const auto err = caught([&] { t->connect(t, a, t, b); }); VF_CHECK(err.empty() != dup, dup ? "duplicate-accepted" : "connect-refused", h << " " << err); if (!dup) { thru.emplace_back(a, b); if (fa) alI.erase(a); if (fb) alO.erase(b); count("pass_through_ports"); }
        }
        else if (what < 5) { if (flows.empty()) continue; const size_t i = r.below(flows.size()); const F f = flows[i]; h += (f.dir ? " do:" : " di:") + f.port + ">" + std::to_string(f.leaf) + f.in; if (f.dir) t->disconnect(L[f.leaf], f.in, t, f.port); else t->disconnect(t, f.port, L[f.leaf], f.in); flows.erase(flows.begin() + i); }
        else if (what < 7)
        {
            const int dir = int(r.below(2)); const std::string p = r.pick(pa), al = r.pick(std::vector<std::string>{"A", "long alias", "0"}); bool have = false; for (auto &x : flows) if (x.dir == dir && x.port == p) have = true; for (auto &x : thru) if ((dir ? x.second : x.first) == p) have = true; if (!have) continue; h += " al:" + p + "=" + al;
            if (dir) t->setOutputAlias(p, al); else t->setInputAlias(p, al); (dir ? alO : alI)[p] = al; count("topology_aliases");
        }
        else VF_CHECK(!caught([&] { t->setInputAlias("nosuch", "x"); }).empty() && !caught([&] { t->setOutputAlias("nosuch", "x"); }).empty(), "alias-of-unknown-port", h);
        for (auto dir : {0, 1})
        {
            std::vector<std::string> order; for (auto &x : flows) if (x.dir == dir && std::find(order.begin(), order.end(), x.port) == order.end()) order.push_back(x.port);
            for (auto &x : thru) { auto &n = dir ? x.second : x.first; if (std::find(order.begin(), order.end(), n) == order.end()) order.push_back(n); }
            const auto info = dir ? t->outputPortInfo() : t->inputPortInfo(); const auto nm = dir ? t->outputPortNames() : t->inputPortNames(); std::vector<std::string> got; for (auto &x : info) got.push_back(x.name);
            auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
            VF_CHECK(sorted(order) == sorted(got) && got == nm, "boundary-ports", h << ": " << got.size() << " ports, expected " << order.size());
            for (auto &x : info) { auto &al = dir ? alO : alI; const std::string want = al.count(x.name) ? al[x.name] : x.name; VF_CHECK(x.alias == want, "boundary-alias", h << ": " << x.name << " alias " << x.alias << " expected " << want); VF_CHECK(x.isSigSlot == (x.name == "s"), "boundary-sigslot", h << ": " << x.name); if (x.name != "s" && x.name[0] != 't') VF_CHECK(x.dtype == dt, "boundary-dtype", h << ": " << x.dtype.toString()); }
            count("boundary_checks");
        }
    }
    //dump of a parent naming the leaves' ports
    auto top = Topology::make(); auto a = std::make_shared<Leaf>(dt, ""), b = std::make_shared<Leaf>("float64", ""); a->setName("a"); b->setName("b"); a->setOutputAlias("0", "zero"); b->setInputAlias("x", "ex");
    auto a2 = std::make_shared<Leaf>(dt, ""); a2->setName("a2"); top->connect(a, 0, a2, 0); top->connect(a2, "sig", b, "slot");
    const auto j = json::parse(top->dumpJSON(r.pick(std::vector<std::string>{"", "{\"mode\":\"flat\"}", "{\"mode\":\"top\"}"})));
    VF_CHECK(j.at("blocks").size() == 3 && j.at("connections").size() == 2, "dump-size", j.dump().substr(0, 400));
    for (auto &n : {a, a2, b}) { auto &o = j.at("blocks").at(n->uid()); VF_CHECK(o.at("name") == n->getName(), "dump-name", o.dump().substr(0, 300)); for (auto d : {0, 1}) { const auto info = d ? n->outputPortInfo() : n->inputPortInfo(); auto &ps = o.at(d ? "outputs" : "inputs"); VF_CHECK(ps.size() == info.size(), "dump-ports", ps.dump()); for (size_t i = 0; i < info.size() && i < ps.size(); i++) VF_CHECK(ps[i].at("name") == info[i].name && ps[i].at("alias") == info[i].alias && ps[i].at("isSigSlot") == info[i].isSigSlot && ps[i].at("dtype") == info[i].dtype.toMarkup() && ps[i].at("size").get<size_t>() == info[i].dtype.size(), "dump-port", ps[i].dump()); } }
    //pools
    ThreadPoolArgs args(r.below(3)); args.yieldMode = r.pick(std::vector<std::string>{"", "CONDITION", "HYBRID"}); args.affinityMode = r.pick(std::vector<std::string>{"", "ALL", "CPU"}); if (args.affinityMode == "CPU") args.affinity = {0};
    ThreadPool own; if (r.flip()) { own = ThreadPool(ThreadPoolArgs(1)); a->setThreadPool(own); VF_CHECK(a->getThreadPool() == own, "pool-reads-back", "block"); }
    const auto before = a2->getThreadPool(); VF_CHECK(bool(before), "no-default-pool", "a2"); const bool setTop = r.flip();
    if (setTop) { ThreadPool p(args); top->setThreadPool(p); VF_CHECK(top->getThreadPool() == p, "pool-reads-back", "topology"); top->commit(); for (auto &n : {a, a2, b}) VF_CHECK(n->getThreadPool() == p, "pool-not-applied", n->getName()); }
    else { top->commit(); VF_CHECK(a2->getThreadPool() == before, "pool-changed", "a2"); if (own) VF_CHECK(a->getThreadPool() == own, "pool-changed", "a"); }
    count("pools");
    //JSON thread pool arguments
    {
        json o; const bool n = r.flip(), p = r.flip(), m = r.flip(), y = r.flip(), f = r.flip(); const double pr = double(r.range(-100, 100)) / 100; const std::vector<size_t> aff = {size_t(r.below(9)), size_t(r.below(9))};
        if (n) o["numThreads"] = 5; if (p) o["priority"] = pr; if (m) o["affinityMode"] = "NUMA"; if (y) o["yieldMode"] = "SPIN"; if (f) o["affinity"] = aff; if (o.is_null()) o = json::object();
        const ThreadPoolArgs g(o.dump()); VF_CHECK(g.numThreads == (n ? 5u : 0u) && g.priority == (p ? pr : 0.0) && g.affinityMode == (m ? "NUMA" : "") && g.yieldMode == (y ? "SPIN" : "") && g.affinity == (f ? aff : std::vector<size_t>()), "pool-args-json", o.dump());
        ThreadPoolArgs bad; switch (r.below(4)) { case 0: bad.affinityMode = "cpu"; break; case 1: bad.yieldMode = "NONE"; break; case 2: bad.priority = 1.0001; break; default: bad.priority = -3; } VF_CHECK(!caught([&] { ThreadPool x(bad); }).empty(), "bad-pool-accepted", bad.affinityMode << bad.yieldMode << bad.priority);
        VF_CHECK(!caught([&] { ThreadPoolArgs x(r.flip() ? std::string("{") : std::string("{\"numThreads\":\"many\"}")); }).empty(), "bad-pool-json-accepted", ""); count("pool_args");
    }
    distinct(h); sample(h);
}

int main(int argc, char **argv)
{
    initLib(); registerFakeCopier();
    return run(argc, argv, {{"run", runCase}, {"queue", queueCase}, {"setup", setupCase}, {"topo", topoCase}});
}
