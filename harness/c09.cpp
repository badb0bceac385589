// C09: the running design equals the declared graph after any edit history
#include "flow.hpp"
#include <json.hpp>
using namespace flow;
using json = nlohmann::json;

//! what arrived: (round, source port, kind) per input port
struct Tag { uint32_t round; uint16_t src, kind; bool operator==(const Tag &o) const { return round == o.round && src == o.src && kind == o.kind; } bool operator<(const Tag &o) const { return std::tie(round, src, kind) < std::tie(o.round, o.src, o.kind); } };
enum { ELEM = 0, MSG = 1, LABEL = 2, SLOT = 3 };
static uint64_t pack(const Tag &t) { return (uint64_t(t.round) << 32) | (uint64_t(t.src) << 16) | t.kind; }
static Tag unpack(uint64_t v) { return Tag{uint32_t(v >> 32), uint16_t(v >> 16), uint16_t(v & 0xffff)}; }

struct Leaf : Base
{
    std::mutex m; std::map<std::string, std::map<Tag, unsigned>> log; uint64_t labelPos = 0; std::map<std::string, uint16_t> outId; std::atomic<int> works{0}; std::map<std::string, std::weak_ptr<void>> sent;
    Leaf(Rng q) : Base(q)
    {
        for (int i = 0; i < 2; i++) { setupInput(i, "uint64"); setupOutput(i, "uint64"); registerSignal("g" + std::to_string(i)); registerSlot("s" + std::to_string(i)); }
        setupInput("named", "uint64"); setupOutput("named", "uint64");
        registerCall(this, "s0", &Leaf::s0); registerCall(this, "s1", &Leaf::s1); registerCall(this, "emitAll", &Leaf::emitAll);
    }
    void add(const std::string &port, const Tag &t) { std::lock_guard<std::mutex> l(m); log[port][t]++; progress(); }
    void s0(uint64_t v) { add("s0", unpack(v)); }
    void s1(uint64_t v) { add("s1", unpack(v)); }
    void emitAll(uint32_t round)
    {
        for (auto &name : outputPortNames())
        {
            if (!outId.count(name)) continue;
            auto o = output(name); const uint16_t src = outId[name];
            if (o->isSignal()) { emitSignal(name, pack(Tag{round, src, SLOT})); continue; }
            o->postMessage(Object(pack(Tag{round, src, MSG})));
            o->postLabel(Label("t", Object(pack(Tag{round, src, LABEL})), 0));
            BufferChunk b("uint64", 1); *b.as<uint64_t *>() = pack(Tag{round, src, ELEM}); { std::lock_guard<std::mutex> l(m); sent[name] = b.getBuffer().getContainer(); } o->postBuffer(std::move(b));
        }
    }
    void work(void)
    {
        works++;
        for (auto &name : inputPortNames())
        {
            auto p = input(name); if (p->isSlot()) continue;
            while (p->hasMessage()) { auto v = p->popMessage(); if (v.type() == typeid(uint64_t)) add(name, unpack(v.extract<uint64_t>())); else violation("foreign-message", id + "[" + name + "] " + v.toString()); }
            const size_t n = p->elements(); if (!n) continue;
            auto x = p->buffer().as<const uint64_t *>(); for (size_t i = 0; i < n; i++) add(name, unpack(x[i]));
            for (auto &l : p->labels()) if (l.index < n) { const auto t = unpack(l.data.extract<uint64_t>()); const auto at = unpack(x[l.index]); VF_CHECK(at.round == t.round && at.src == t.src, "label-on-wrong-element", id << " label of " << t.src << "/" << t.round << " on element of " << at.src << "/" << at.round); add(name, t); }
            p->consume(n);
        }
    }
    void propagateLabels(const InputPort *) {}
};

struct Model;
//! a topology in the declared hierarchy
struct Hier { std::shared_ptr<Topology> t; size_t parent; std::vector<size_t> hiers, leaves; std::string name; };
struct End { int kind; size_t i; std::string port; bool operator<(const End &o) const { return std::tie(kind, i, port) < std::tie(o.kind, o.i, o.port); } bool operator==(const End &o) const { return std::tie(kind, i, port) == std::tie(o.kind, o.i, o.port); } }; //kind 0 leaf, 1 child topology, 2 self
typedef std::pair<End, End> Flow2;
struct Model
{
    std::vector<Hier> h; std::vector<std::shared_ptr<Leaf>> l; std::vector<std::set<Flow2>> flows; //flows per topology
    unsigned own = 3, child = 6; std::vector<std::string> names{"a", "b", "0"}; //how often boundary ports are used, and which
    //! node in the flattened graph: leaf port or boundary port
    typedef std::tuple<int, size_t, std::string, bool> Node; //(0 leaf|1 hier, index, port, isOut)
    static Node node(size_t self, const End &e, bool asSrc)
    {
        if (e.kind == 0) return Node(0, e.i, e.port, asSrc);
        if (e.kind == 1) return Node(1, e.i, e.port, asSrc); //child's output when a source, its input when a destination
        return Node(1, self, e.port, !asSrc); //own input when a source, own output when a destination
    }
    bool active(size_t i) const
    {
        if (i == 0) return true; bool used = false;
        for (auto &f : flows[h[i].parent]) if ((f.first.kind == 1 && f.first.i == i) || (f.second.kind == 1 && f.second.i == i)) used = true;
        return used && active(h[i].parent);
    }
    //! number of declared paths from every leaf output to every leaf input; false on a boundary cycle
    bool flatten(std::map<std::pair<Node, Node>, unsigned> &out, bool onlyActive = true) const
    {
        std::map<Node, std::vector<Node>> adj; std::set<Node> srcs;
        for (size_t i = 0; i < h.size(); i++) { if (onlyActive && !active(i)) continue; for (auto &f : flows[i]) { const auto a = node(i, f.first, true), b = node(i, f.second, false); adj[a].push_back(b); if (std::get<0>(a) == 0) srcs.insert(a); } }
        bool ok = true;
        for (auto &s : srcs) { std::function<void(const Node &, unsigned)> go = [&](const Node &n, unsigned depth) { if (depth > 24) { ok = false; return; } auto it = adj.find(n); if (it == adj.end()) return; for (auto &d : it->second) { if (!ok) return; if (std::get<0>(d) == 0) out[{s, d}]++; else go(d, depth + 1); } }; go(s, 0); }
        //cycles among boundary ports only
        for (auto &p : adj) { if (std::get<0>(p.first) == 0) continue; std::function<void(const Node &, unsigned)> go = [&](const Node &n, unsigned depth) { if (depth > 24) { ok = false; return; } auto it = adj.find(n); if (it == adj.end()) return; for (auto &d : it->second) if (ok && std::get<0>(d) != 0) go(d, depth + 1); }; go(p.first, 0); }
        return ok;
    }
    Object obj(size_t self, const End &e) const
    {
        if (e.kind == 0) return Detail::connObjToObject(l[e.i]);
        if (e.kind == 1) return Detail::connObjToObject(h[e.i].t);
        return Detail::connObjToObject(h[self].t.get());
    }
    //! does the port exist, as declared?
    bool portOk(size_t, const End &e, bool asSrc) const
    {
        if (e.kind == 2) return true;
        if (e.kind == 1) { for (auto &f : flows[e.i]) { if (!asSrc && f.first.kind == 2 && f.first.port == e.port) return true; if (asSrc && f.second.kind == 2 && f.second.port == e.port) return true; } return false; }
        return e.port == "named" || e.port == (asSrc ? "g0" : "s0") || e.port == (asSrc ? "g1" : "s1") || (e.port.size() == 1 && isdigit(e.port[0]));
    }
};
static bool isSig(const std::string &p) { return p[0] == 'g' || p[0] == 's'; }

static End randEnd(Rng &r, const Model &m, size_t self, bool asSrc, bool sig)
{
    auto &h = m.h[self]; End e;
    const unsigned k = r.below(10);
    if (self != 0 && k < m.own) { e.kind = 2; e.i = self; e.port = sig ? (r.flip() ? "gs" : "sg") : r.pick(m.names); return e; }
    if (!h.hiers.empty() && k < m.child) { e.kind = 1; e.i = r.pick(h.hiers); e.port = sig ? (r.flip() ? "gs" : "sg") : r.pick(m.names); return e; }
    e.kind = 0; e.i = r.pick(h.leaves); e.port = sig ? std::string(asSrc ? "g" : "s") + (r.flip() ? "0" : "1") : r.chance(1, 6) ? "named" : std::to_string(r.below(r.chance(1, 4) ? 5 : 2)); return e;
}
static std::multiset<std::string> conns(const json &j) { std::multiset<std::string> s; for (auto &c : j.value("connections", json::array())) s.insert(c["srcId"].get<std::string>() + "[" + c["srcName"].get<std::string>() + "]->" + c["dstId"].get<std::string>() + "[" + c["dstName"].get<std::string>() + "]"); return s; }
static std::string show(const std::multiset<std::string> &a, const std::multiset<std::string> &b) { std::string o; for (auto &x : a) if (a.count(x) != b.count(x)) o += " reported:" + x; for (auto &x : b) if (a.count(x) != b.count(x)) o += " declared:" + x; return o; }
static std::set<std::string> names(const std::vector<PortInfo> &v) { std::set<std::string> s; for (auto &x : v) s.insert(x.name); return s; }

static void editCase(Rng &r, uint64_t)
{
    Model m; std::string sig;
    const bool dense = r.chance(1, 3); if (dense) { m.own = 5; m.child = 8; m.names = {"a"}; } //many flows through few boundary ports
    const size_t nh = dense ? 2 + r.below(2) : 1 + r.below(5);
    for (size_t i = 0; i < nh; i++) { Hier x; x.t = Topology::make(); x.parent = i ? r.below(i) : 0; x.name = "T" + std::to_string(i); x.t->setName(x.name); m.h.push_back(x); if (i) m.h[x.parent].hiers.push_back(i); }
    uint16_t ids = 1; std::map<uint16_t, Model::Node> outOf;
    for (size_t i = 0; i < nh; i++) for (size_t k = (i == 0 ? (dense ? 5 : 2) : 1) + r.below(3); k > 0; k--)
    {
        auto b = std::make_shared<Leaf>(r.fork()); b->id = "L" + std::to_string(m.l.size()); b->setName(b->id); if (r.chance(1, 3)) b->setThreadPool(randPool(r));
        for (auto &n : std::vector<std::string>{"0", "1", "2", "3", "4", "named", "g0", "g1"}) { outOf[ids] = Model::Node(0, m.l.size(), n, true); b->outId[n] = ids++; }
        m.h[i].leaves.push_back(m.l.size()); m.l.push_back(b);
    }
    m.flows.resize(nh); sig = std::to_string(nh) + "/" + std::to_string(m.l.size()) + ":";
    std::map<size_t, std::map<std::string, std::map<Tag, unsigned>>> want; uint32_t round = 0; std::map<std::pair<Model::Node, Model::Node>, unsigned> live;
    auto uidOf = [&](size_t self, const End &e) { return e.kind == 0 ? m.l[e.i]->uid() : e.kind == 1 ? m.h[e.i].t->uid() : m.h[self].t->uid(); };
    auto declared = [&](size_t i) { std::multiset<std::string> s; for (auto &f : m.flows[i]) s.insert(uidOf(i, f.first) + "[" + f.first.port + "]->" + uidOf(i, f.second) + "[" + f.second.port + "]"); return s; };
    auto structure = [&](const char *when)
    {
        for (size_t i = 0; i < nh; i++)
        {
            const auto rep = conns(json::parse(m.h[i].t->dumpJSON("{\"mode\":\"top\"}"))), dec = declared(i);
            VF_CHECK(rep == dec, "declared-flows-differ", when << " " << m.h[i].name << show(rep, dec));
            std::set<std::string> in, out; for (auto &f : m.flows[i]) { if (f.first.kind == 2) in.insert(f.first.port); if (f.second.kind == 2) out.insert(f.second.port); }
            const auto ri = names(m.h[i].t->inputPortInfo()), ro = names(m.h[i].t->outputPortInfo());
            std::string d; for (auto &x : ri) d += x + " "; d += "|"; for (auto &x : ro) d += x + " "; d += " declared "; for (auto &x : in) d += x + " "; d += "|"; for (auto &x : out) d += x + " ";
            VF_CHECK(ri == in && ro == out, "boundary-ports-differ", when << " " << m.h[i].name << " reports " << d);
        }
        count("structure_checks");
    };
    auto flatNames = [&](const std::map<std::pair<Model::Node, Model::Node>, unsigned> &f) { std::multiset<std::string> s; for (auto &p : f) for (unsigned k = 0; k < p.second; k++) s.insert(m.l[std::get<1>(p.first.first)]->uid() + "[" + std::get<2>(p.first.first) + "]->" + m.l[std::get<1>(p.first.second)]->uid() + "[" + std::get<2>(p.first.second) + "]"); return s; };
    auto check = [&](const char *when)
    {
        bool bad = false;
        for (size_t i = 0; i < m.l.size() && !bad; i++)
        {
            std::lock_guard<std::mutex> lk(m.l[i]->m);
            std::set<std::string> ports; for (auto &p : m.l[i]->log) ports.insert(p.first); for (auto &p : want[i]) ports.insert(p.first);
            for (auto &p : ports) { auto &g = m.l[i]->log[p]; auto &w = want[i][p]; if (g == w) continue; bad = true;
                for (auto &t : g) if (!w.count(t.first) || w[t.first] != t.second) { std::ostringstream o; auto &n = outOf[t.first.src]; o << when << ": L" << i << "[" << p << "] got " << t.second << "x kind " << t.first.kind << " of L" << std::get<1>(n) << "[" << std::get<2>(n) << "] in round " << t.first.round << ", declared " << (w.count(t.first) ? w[t.first] : 0) << "; " << sig; violation("delivered-where-not-connected", o.str()); break; }
                for (auto &t : w) if (!g.count(t.first)) { std::ostringstream o; auto &n = outOf[t.first.src]; o << when << ": L" << i << "[" << p << "] misses kind " << t.first.kind << " of L" << std::get<1>(n) << "[" << std::get<2>(n) << "] in round " << t.first.round << "; " << sig; violation("connected-but-not-delivered", o.str()); break; } }
        }
        return !bad;
    };
    auto probe = [&]
    {
        round++; uint64_t expect = 0, base = 0; for (auto &x : m.l) { std::lock_guard<std::mutex> lk(x->m); for (auto &p : x->log) for (auto &t : p.second) base += t.second; }
        std::set<size_t> on; for (auto &p : live) { on.insert(std::get<1>(p.first.first)); on.insert(std::get<1>(p.first.second)); }
        for (auto &p : live)
        {
            const size_t si = std::get<1>(p.first.first), di = std::get<1>(p.first.second); const auto &sp = std::get<2>(p.first.first), &dp = std::get<2>(p.first.second); const uint16_t id = m.l[si]->outId[sp];
            if (isSig(sp)) { want[di][dp][Tag{round, id, SLOT}]++; expect++; } else { for (uint16_t k = 0; k < 3; k++) want[di][dp][Tag{round, id, k}]++; expect += 3; }
        }
        for (size_t i : on) m.l[i]->call("emitAll", round);
        waitUntil([&] { uint64_t n = 0; for (auto &x : m.l) { std::lock_guard<std::mutex> lk(x->m); for (auto &p : x->log) for (auto &t : p.second) n += t.second; } return n >= base + expect; }, 3000);
        //what was posted on unconnected outputs must be flushed by the block's thread before the next edit, or a later connection would rightly carry it
        std::set<std::pair<size_t, std::string>> used; for (auto &p : live) used.emplace(std::get<1>(p.first.first), std::get<2>(p.first.first));
        if (waitUntil([&] { for (size_t i : on) { std::lock_guard<std::mutex> lk(m.l[i]->m); for (auto &x : m.l[i]->sent) if (!used.count({i, x.first}) && !x.second.expired()) return false; } return true; }, 3000)) count("flushed_rounds"); else count("unflushed_rounds");
        count("probe_rounds"); count("deliveries_checked", expect); return check("after commit");
    };
    auto attempt = [&](const size_t self, const Flow2 &f)
    {
        auto &t = *m.h[self].t;
        const bool dup = m.flows[self].count(f), valid = m.portOk(self, f.first, true) && m.portOk(self, f.second, false);
        if (valid && !dup) { m.flows[self].insert(f); std::map<std::pair<Model::Node, Model::Node>, unsigned> fl; bool good = m.flatten(fl, false); for (auto &p : fl) if (p.second > 1) good = false; m.flows[self].erase(f); if (!good) return; } //ambiguous designs are out of scope
        const auto err = caught([&] { t._connect(m.obj(self, f.first), f.first.port, m.obj(self, f.second), f.second.port); });
        VF_CHECK(err.empty() == (valid && !dup), err.empty() ? "invalid-connect-accepted" : "valid-connect-refused", m.h[self].name << " " << f.first.kind << ":" << f.first.i << "[" << f.first.port << "]->" << f.second.kind << ":" << f.second.i << "[" << f.second.port << "] " << (dup ? "duplicate " : "") << err);
        if (err.empty()) { m.flows[self].insert(f); count("connects"); if (f.first.kind == 2 && f.second.kind == 2) count("pass_throughs"); } else { count("refused_connects"); structure("after refused connect"); }
        sig += err.empty() ? "c" : "x";
    };
    //wide designs: an input port passed on to several output ports, which inner blocks feed as well, read and written by several blocks outside
    if (dense && r.flip()) for (size_t i = 1; i < nh; i++)
    {
        m.names = {"a", "b", "0"}; const size_t up = m.h[i].parent; std::vector<std::pair<size_t, Flow2>> w;
        for (auto &n : m.names) for (auto &q : m.names) if (n == "a" || r.chance(1, 4)) w.push_back({i, Flow2(End{2, i, n}, End{2, i, q})});
        for (auto &n : m.names) { w.push_back({i, Flow2(randEnd(r, m, i, true, false), End{2, i, n})}); w.push_back({up, Flow2(randEnd(r, m, up, true, false), End{1, i, n})}); w.push_back({up, Flow2(End{1, i, n}, randEnd(r, m, up, false, false))}); w.push_back({up, Flow2(End{1, i, n}, randEnd(r, m, up, false, false))}); }
        while (!w.empty()) { const size_t k = r.below(w.size()); const auto x = w[k]; w.erase(w.begin() + k); if (!r.chance(1, 8)) attempt(x.first, x.second); }
    }
    bool ok = true; const unsigned steps = unsigned(r.range(5, 14));
    for (unsigned k = 0; k < steps && ok; k++)
    {
        for (unsigned e = unsigned(r.range(1, dense ? 25 : 10)); e > 0; e--)
        {
            const size_t self = r.below(nh); auto &t = *m.h[self].t; const unsigned what = r.below(14);
            if (what < 8)
            {
                const bool sg = r.chance(1, 3); attempt(self, Flow2(randEnd(r, m, self, true, sg), randEnd(r, m, self, false, sg)));
            }
            else if (what < 11 && !m.flows[self].empty())
            {
                auto it = m.flows[self].begin(); std::advance(it, r.below(m.flows[self].size())); const Flow2 f = *it;
                const auto err = caught([&] { t._disconnect(m.obj(self, f.first), f.first.port, m.obj(self, f.second), f.second.port); });
                VF_CHECK(err.empty(), "disconnect-refused", m.h[self].name << " " << f.first.kind << ":" << f.first.i << "[" << f.first.port << "]->" << f.second.kind << ":" << f.second.i << "[" << f.second.port << "] " << err);
                m.flows[self].erase(f); count("disconnects"); if (f.first.kind == 2 || f.second.kind == 2) count("boundary_disconnects"); sig += "d";
            }
            else if (what == 11)
            {
                //requests that must be refused
                const bool sg = r.chance(1, 3); Flow2 f(randEnd(r, m, self, true, sg), randEnd(r, m, self, false, sg)); std::string err;
                switch (r.below(5))
                {
                case 0: if (m.flows[self].count(f)) continue; err = caught([&] { t._disconnect(m.obj(self, f.first), f.first.port, m.obj(self, f.second), f.second.port); }); break;
                case 1: f.first = End{0, r.pick(m.h[self].leaves), "nosuch"}; err = caught([&] { t._connect(m.obj(self, f.first), f.first.port, m.obj(self, f.second), f.second.port); }); break;
                case 2: f.second = End{0, r.pick(m.h[self].leaves), "nosuch"}; err = caught([&] { t._connect(m.obj(self, f.first), f.first.port, m.obj(self, f.second), f.second.port); }); break;
                case 3: err = caught([&] { t._connect(r.flip() ? Object(3) : Object(), f.first.port, m.obj(self, f.second), f.second.port); }); break;
                default: err = caught([&] { t._disconnect(m.obj(self, f.first), f.first.port, r.flip() ? Object("x") : Object(), f.second.port); }); break;
                }
                VF_CHECK(!err.empty(), "invalid-request-accepted", m.h[self].name << " " << f.first.port << "->" << f.second.port); count("refused_requests"); structure("after refused request"); sig += "i";
            }
            else if (what == 12 && r.chance(1, 4)) { const bool rec = r.flip(); t.disconnectAll(rec); std::function<void(size_t)> clr = [&](size_t i) { if (rec && i == self) for (size_t c : m.h[i].hiers) { bool used = false; for (auto &f : m.flows[i]) if ((f.first.kind == 1 && f.first.i == c) || (f.second.kind == 1 && f.second.i == c)) used = true; if (used) m.flows[c].clear(); } m.flows[i].clear(); }; clr(self); count("disconnect_alls"); sig += rec ? "R" : "D"; }
        }
        structure("before commit");
        std::map<std::pair<Model::Node, Model::Node>, unsigned> fl; m.flatten(fl);
        {
            //internal flows of topologies that are not part of the design make no difference
            const auto err = caught([&] { m.h[0].t->commit(); }); VF_CHECK(err.empty(), "commit-failed", err << " " << sig); if (!err.empty()) break;
        }
        live = fl; sig += "!"; count("commits"); count("flat_flows", fl.size()); if (dense) count("dense_flat_flows", fl.size());
        { for (size_t i = 1; i < nh; i++) for (auto &f : m.flows[i]) if (f.first.kind == 2 && f.second.kind == 2) { unsigned in = 0, out = 0; for (auto &g : m.flows[m.h[i].parent]) { if (g.second.kind == 1 && g.second.i == i && g.second.port == f.first.port) in++; if (g.first.kind == 1 && g.first.i == i && g.first.port == f.second.port) out++; } if (in > 0 && out > 1) count("wide_pass_throughs"); } }
        const auto want1 = flatNames(fl); const auto flat = conns(json::parse(m.h[0].t->dumpJSON("{\"mode\":\"flat\"}"))), ren = conns(json::parse(m.h[0].t->dumpJSON("{\"mode\":\"rendered\"}")));
        VF_CHECK(flat == want1, "flat-structure-differs", show(flat, want1) << " " << sig); VF_CHECK(ren == want1, "rendered-structure-differs", show(ren, want1) << " " << sig);
        ok = probe();
        if (r.chance(1, 4)) { caught([&] { m.h[0].t->toDotMarkup("{\"mode\":\"flat\"}"); }); }
    }
    if (r.flip()) { m.h[0].t->disconnectAll(r.flip()); for (auto &f : m.flows) (void)f; m.h[0].t->commit(); }
    m.h.clear();
    check("at the end"); distinct(sig); sample(sig);
}

//! ports that appear while the block is running (ASan/TSan watch the block's port tables)
struct Many : Base
{
    std::atomic<uint64_t> got{0}, works{0};
    Many(Rng q, bool src) : Base(q) { if (src) setupOutput(0, "uint8"); else setupInput(0, "uint8"); }
    void work(void)
    {
        works.fetch_add(1, std::memory_order_relaxed);
        for (auto p : inputs()) if (p && p->elements()) { got.fetch_add(p->elements(), std::memory_order_relaxed); p->consume(p->elements()); progress(); }
        for (auto o : outputs()) if (o && o->elements()) { const size_t n = std::min<size_t>(o->elements(), 7); memset(o->buffer().as<void *>(), 1, n); o->produce(n); }
        if (!outputs().empty()) { auto &wi = workInfo(); for (auto p : wi.outputPointers) if (p == nullptr && wi.minAllElements == 12345) progress(); yield(); }
    }
};
static void autoCase(Rng &r, uint64_t)
{
    auto a = std::make_shared<Many>(r.fork(), true), b = std::make_shared<Many>(r.fork(), false); if (r.flip()) { auto p = randPool(r); a->setThreadPool(p); b->setThreadPool(p); }
    std::string sig = "auto:"; Topology t; t.connect(a, 0, b, 0); t.commit(); std::set<std::pair<int, int>> have{{0, 0}};
    for (unsigned k = 0; k < 25; k++)
    {
        const int i = int(r.below(6)), j = int(r.below(6)); const std::pair<int, int> p(i, j);
        if (have.count(p)) { if (p == std::make_pair(0, 0)) continue; t.disconnect(a, i, b, j); have.erase(p); sig += "d"; } else { t.connect(a, i, b, j); have.insert(p); sig += "c"; count("auto_ports"); }
        if (r.chance(2, 3)) { t.commit(); sig += "!"; }
        { const auto g = b->got.load(); VF_CHECK(waitUntil([&] { return b->got > g; }, 4000), "no-flow-after-port-change", sig); }
        std::set<std::string> in, out; for (auto &x : have) { out.insert(std::to_string(x.first)); in.insert(std::to_string(x.second)); }
        for (auto &x : in) VF_CHECK(caught([&] { b->input(x); }).empty(), "connected-port-missing", "input " << x << " " << sig); for (auto &x : out) VF_CHECK(caught([&] { a->output(x); }).empty(), "connected-port-missing", "output " << x << " " << sig);
    }
    distinct(sig);
}

int main(int argc, char **argv)
{
    initLib(); registerFakeCopier();
    return run(argc, argv, {{"edit", editCase}, {"auto", autoCase}});
}
