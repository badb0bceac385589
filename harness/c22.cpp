// C22: a topology built from a JSON description is the one the description says
#include "flow.hpp"
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Util/EvalEnvironment.hpp>
#include <Pothos/Framework/TopologyImpl.hpp>
#include <json.hpp>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace flow;
using json = nlohmann::json;

//! everything the described blocks see, in order
static std::vector<std::string> g_log; static int64_t g_alive = 0; static std::vector<std::string> g_uids;
static std::string show(double v) { if (v == 0) v = 0; //the sign of a zero is not part of the description
    std::ostringstream o; o.precision(15); o << v; return o.str(); }
//! one spelling for every value an expression can have
static std::string norm(const Object &o)
{
    if (o.type() == typeid(bool)) return o.extract<bool>() ? "T" : "F";
    if (o.type() == typeid(std::string)) return "s:" + o.extract<std::string>();
    if (o.canConvert(typeid(ProxyVector))) { std::string s = "["; for (auto &p : o.convert<ProxyVector>()) s += norm(p.toObject()) + ","; return s + "]"; }
    if (o.canConvert(typeid(ProxyMap))) { std::map<std::string, std::string> m; for (auto &p : o.convert<ProxyMap>()) m[norm(p.first.toObject())] = norm(p.second.toObject()); std::string s = "{"; for (auto &p : m) s += p.first + ":" + p.second + ","; return s + "}"; }
    return show(o.convert<double>());
}
struct Rec : Block
{
    std::string kind; std::atomic<int> got{0};
    explicit Rec(const std::string &k) : kind(k)
    {
        g_alive++; g_uids.push_back(uid()); setupInput(0); setupInput(1); setupInput("in"); setupOutput(0); setupOutput(1); setupOutput("out"); registerSignal("sig");
        registerCall(this, "setI", &Rec::setI); registerCall(this, "setD", &Rec::setD); registerCall(this, "setS", &Rec::setS); registerCall(this, "setB", &Rec::setB); registerCall(this, "setV", &Rec::setV);
        registerCall(this, "two", &Rec::two); registerCall(this, "none", &Rec::none); registerCall(this, "refuse", &Rec::refuse); registerCall(this, "any", &Rec::any);
    }
    ~Rec(void) { g_alive--; }
    void ev(const std::string &s) { g_log.push_back("call " + getName() + "." + s); }
    void setI(int v) { ev("setI(" + show(v) + ")"); } void setD(double v) { ev("setD(" + show(v) + ")"); } void setS(const std::string &v) { ev("setS(s:" + v + ")"); } void setB(bool v) { ev(std::string("setB(") + (v ? "T)" : "F)")); }
    void setV(const std::vector<double> &v) { std::string s = "setV(["; for (double x : v) s += show(x) + ","; ev(s + "])"); }
    int two(int a, const std::string &b) { ev("two(" + show(a) + "s:" + b + ")"); return a; } void none(void) { ev("none()"); }
    void any(const Proxy &p) { ev("any(" + norm(p.toObject()) + ")"); }
    void refuse(int v) { ev("refuse"); if (v & 1) throw std::runtime_error("no"); throw Pothos::RuntimeException("no"); }
    void work(void) { for (auto p : inputs()) { while (p->hasMessage()) { p->popMessage(); got++; } } }
    static Block *mk0(void) { g_log.push_back("new r0()"); return new Rec("r0"); }
    static Block *mk1(int a) { g_log.push_back("new r1(" + show(a) + ")"); return new Rec("r1"); }
    static std::shared_ptr<Block> mk2(const std::string &s, double d) { g_log.push_back("new r2(s:" + s + show(d) + ")"); return std::make_shared<Rec>("r2"); }
    static Block *mkv(const std::vector<double> &v, bool b) { std::string s = "["; for (double x : v) s += show(x) + ","; g_log.push_back("new rv(" + s + "]" + (b ? "T" : "F") + ")"); return new Rec("rv"); }
    static Object opq(const Object *a, const size_t n) { std::string s = "new ro("; for (size_t i = 0; i < n; i++) s += norm(a[i]) + ";"; g_log.push_back(s + ")"); return Object(std::static_pointer_cast<Block>(std::make_shared<Rec>("ro"))); }
    static Block *bad(int v) { g_log.push_back("new bad"); Rec half("half"); throw v; }
};
static void registerAll(void)
{
    BlockRegistry("/vf/r0", &Rec::mk0); BlockRegistry("/vf/r1", &Rec::mk1); BlockRegistry("/vf/r2", &Rec::mk2); BlockRegistry("/vf/rv", &Rec::mkv); BlockRegistry("/vf/ro", Callable(&Rec::opq)); BlockRegistry("/vf/bad", &Rec::bad);
}

//! a value the model knows, and a JSON spelling of it that refers to the variables in scope
struct Val { char t; double n; std::string s; bool b; std::vector<double> v; std::map<std::string, double> m; Val() : t('n'), n(0), b(false) {} std::string norm(void) const { switch (t) { case 'n': return show(n); case 's': return "s:" + s; case 'b': return b ? "T" : "F"; case 'v': { std::string o = "["; for (double x : v) o += show(x) + ","; return o + "]"; } default: { std::string o = "{"; for (auto &x : m) o += "s:" + x.first + ":" + show(x.second) + ","; return o + "}"; } } } };
typedef std::vector<std::pair<std::string, Val>> Scope; //later entries shadow earlier ones
static const Val *look(const Scope &s, const std::string &n) { for (auto it = s.rbegin(); it != s.rend(); ++it) if (it->first == n) return &it->second; return nullptr; }
static std::vector<std::string> ofType(const Scope &s, char t) { std::vector<std::string> o; for (auto &x : s) { auto v = look(s, x.first); if (v->t == t) o.push_back(x.first); } return o; }
static std::string numExpr(Rng &r, const Scope &s, double &v, int depth)
{
    const auto vars = ofType(s, 'n'); const unsigned k = r.below(depth > 0 ? 6 : 3);
    if (k == 0 && !vars.empty()) { const auto n = r.pick(vars); v = look(s, n)->n; return n; }
    if (k <= 2) { if (r.chance(1, 4)) { v = double(r.range(1, 99)) / 4; return show(v); } v = double(r.range(0, 60)); return show(v); }
    double a, b; const auto x = numExpr(r, s, a, depth - 1), y = numExpr(r, s, b, depth - 1); if (k == 3) { v = a + b; return x + "+" + "(" + y + ")"; } if (k == 4) { v = a - b; return "(" + x + " - (" + y + "))"; } v = a * b; return "(" + x + ")*(" + y + ")";
}
static json spell(Rng &r, const Scope &s, Val &v, char t)
{
    v = Val(); v.t = t;
    switch (t)
    {
    case 'n': if (r.chance(1, 3)) { v.n = r.chance(1, 3) ? double(r.range(-99, 99)) / 8 : double(r.range(-50, 50)); if (v.n == std::floor(v.n)) return json((long long)v.n); return json(v.n); } { const auto e = numExpr(r, s, v.n, 2); return json(e); }
    case 'b': v.b = r.flip(); if (r.flip()) return json(v.b); return json(r.pick(v.b ? std::vector<std::string>{"true", "True", "3 > 2"} : std::vector<std::string>{"false", "False", "2 > 3"}));
    case 's':
    {
        const auto vars = ofType(s, 's'); if (!vars.empty() && r.chance(1, 4)) { const auto n = r.pick(vars); v.s = look(s, n)->s; return json(n); }
        if (r.flip()) { v.s = r.pick(std::vector<std::string>{"plain", "two words", "a-b c", "", "3 apples", "x=1"}); return json("\"" + v.s + "\""); } //a quoted string expression
        v.s = r.pick(std::vector<std::string>{"plain_text", "two words", "not-an expression", "nosuch(", "[1, nosuch]", "file.txt", "  padded text ", "http://host:80/x", "{nosuch}"}); return json(v.s); //not an expression: taken literally
    }
    case 'v': { const size_t n = r.below(4); std::string e = "["; json a = json::array(); const bool arr = r.flip(); for (size_t i = 0; i < n; i++) { double x; if (arr) { x = double(r.range(-9, 9)); a.push_back((long long)x); } else { const auto q = numExpr(r, s, x, 1); e += (i ? ", " : "") + q; } v.v.push_back(x); } if (arr) return a; return json(e + "]"); }
    default: { json o = json::object(); std::string e = "{"; const bool obj = r.flip(); for (auto k : {"a", "b", "key"}) if (r.flip()) { double x; if (obj) { x = double(r.range(0, 9)); o[k] = (long long)x; } else { const auto q = numExpr(r, s, x, 0); e += std::string(e.size() > 1 ? "," : "") + "\"" + k + "\":" + q; } v.m[k] = x; } if (v.m.empty()) { v.m["a"] = 1; return json("{\"a\":1}"); } if (obj) return o; return json(e + "}"); }
    }
}
static json spellInt(Rng &r, Val &v) { v = Val(); v.n = double(r.range(-20, 40)); if (r.flip()) return json((long long)v.n); const long long k = r.range(1, 9); return json(std::to_string((long long)v.n - k) + "+" + std::to_string(k)); }

struct Model { json top; std::vector<std::string> log; std::vector<std::string> ids; std::vector<std::array<std::string, 4>> conns; std::map<std::string, std::string> pool; std::vector<std::string> globalNames; std::vector<Val> globalVals; };
static json vars(Rng &r, Scope &sc, const std::string &prefix, size_t n, bool ordered)
{
    json arr = json::array(), obj = json::object(); const Scope base = sc;
    for (size_t i = 0; i < n; i++)
    {
        std::string name = prefix + std::to_string(ordered ? r.below(4) : i); Val v; const char t = r.pick(std::vector<char>{'n', 'n', 'n', 's', 'b', 'v'});
        const json j = spell(r, ordered ? sc : base, v, t); //entries of an unordered map only refer to what is outside it
        if (ordered) { json o; o["name"] = name; o["value"] = j; arr.push_back(o); } else obj[name] = j;
        sc.emplace_back(name, v); count("variables");
    }
    return ordered ? arr : obj;
}
static std::string describe(Model &m, Rng &r, bool viaLoader, const Scope *over = nullptr)
{
    (void)over; Scope globals; json &top = m.top; top = json::object();
    const bool ordered = viaLoader || r.flip(); if (viaLoader || r.chance(3, 4)) { top["globals"] = vars(r, globals, "g", r.below(4), ordered); }
    std::vector<std::string> pools; if (r.flip()) { top["threadPools"] = json::object(); for (auto p : {"p1", "p2"}) if (r.flip()) { json a = json::object(); if (r.flip()) a["numThreads"] = 1 + r.below(2); if (r.flip()) a["yieldMode"] = "CONDITION"; top["threadPools"][p] = a; pools.push_back(p); } }
    const size_t nb = r.below(5); if (nb || r.flip()) top["blocks"] = json::array();
    for (size_t i = 0; i < nb; i++)
    {
        json b; const std::string id = r.pick(std::vector<std::string>{"blk", "the block", "b.", "Z"}) + std::to_string(i); b["id"] = id; m.ids.push_back(id); Scope sc = globals;
        if (r.flip()) { const bool ord = r.flip(); b["locals"] = vars(r, sc, r.chance(1, 3) ? "g" : "l", r.below(3), ord); } //locals may shadow globals
        const unsigned k = r.below(5); json args = json::array(); std::string want; Val v, w;
        switch (k)
        {
        case 0: b["path"] = "/vf/r0"; want = "new r0()"; break;
        case 1: b["path"] = "/vf/r1"; args.push_back(spellInt(r, v)); want = "new r1(" + v.norm() + ")"; break;
        case 2: b["path"] = "/vf/r2"; args.push_back(spell(r, sc, v, 's')); args.push_back(spell(r, sc, w, 'n')); want = "new r2(" + v.norm() + w.norm() + ")"; break;
        case 3: b["path"] = "/vf/rv"; args.push_back(spell(r, sc, v, 'v')); args.push_back(spell(r, sc, w, 'b')); want = "new rv(" + v.norm() + w.norm() + ")"; break;
        default: { b["path"] = "/vf/ro"; want = "new ro("; for (size_t n = r.below(4); n > 0; n--) { args.push_back(spell(r, sc, v, r.pick(std::vector<char>{'n', 's', 'b', 'v', 'm'}))); want += v.norm() + ";"; } want += ")"; }
        }
        if (!args.empty() || r.flip()) b["args"] = args; m.log.push_back(want);
        if (r.chance(3, 4)) b["calls"] = json::array();
        if (b.count("calls")) for (unsigned n = r.below(4); n > 0; n--)
        {
            json c = json::array(); std::string e;
            switch (r.below(7))
            {
            case 0: c = {"setI"}; c.push_back(spellInt(r, v)); e = "setI(" + v.norm() + ")"; break;
            case 1: c = {"setD"}; c.push_back(spell(r, sc, v, 'n')); e = "setD(" + v.norm() + ")"; break;
            case 2: c = {"setS"}; c.push_back(spell(r, sc, v, 's')); e = "setS(" + v.norm() + ")"; break;
            case 3: c = {"setB"}; c.push_back(spell(r, sc, v, 'b')); e = "setB(" + v.norm() + ")"; break;
            case 4: c = {"setV"}; c.push_back(spell(r, sc, v, 'v')); e = "setV(" + v.norm() + ")"; break;
            case 5: c = {"two"}; c.push_back(spellInt(r, v)); c.push_back(spell(r, sc, w, 's')); e = "two(" + v.norm() + w.norm() + ")"; break;
            default: c = {"none"}; e = "none()";
            }
            b["calls"].push_back(c); m.log.push_back("call " + id + "." + e); count("calls_described");
        }
        if (!pools.empty() && r.flip()) { b["threadPool"] = r.pick(pools); m.pool[id] = b["threadPool"]; }
        if (r.chance(1, 6)) b["comment"] = "unrelated"; top["blocks"].push_back(b); count("blocks_described");
    }
    if (nb)
    {
        top["connections"] = json::array(); std::set<std::string> used;
        for (unsigned n = r.below(2 * nb + 1); n > 0; n--)
        {
            const unsigned k = r.below(8); std::string s = k == 0 ? r.pick(std::vector<std::string>{"self", "this", ""}) : r.pick(m.ids), d = k == 1 ? r.pick(std::vector<std::string>{"self", "this", ""}) : r.pick(m.ids); std::string sp, dp;
            if (k == 0) { sp = r.pick(std::vector<std::string>{"x", "0"}); } else sp = r.pick(std::vector<std::string>{"0", "1", "out", "sig"}); if (k == 1) dp = r.pick(std::vector<std::string>{"y", "1"}); else dp = sp == "sig" ? "none" : r.pick(std::vector<std::string>{"0", "1", "in"});
            const std::string S = k == 0 ? "<self>" : s, D = k == 1 ? "<self>" : d; if (!used.insert(S + "\n" + sp + "\n" + D + "\n" + dp).second) continue;
            json c = json::array(); auto port = [&](const std::string &p) { return p == "0" || p == "1" ? (r.flip() ? json(p) : json(std::stoi(p))) : json(p); }; c.push_back(s); c.push_back(port(sp)); c.push_back(d); c.push_back(port(dp)); top["connections"].push_back(c); m.conns.push_back({{S, sp, D, dp}}); count("connections_described");
        }
    }
    return top.dump();
}
static void compare(const Model &m, Topology &t, const std::vector<std::string> &order)
{
    std::string diff; for (size_t i = 0; i < std::max(g_log.size(), m.log.size()) && diff.empty(); i++) { const std::string a = i < g_log.size() ? g_log[i] : "-", b = i < m.log.size() ? m.log[i] : "-"; if (a != b) diff = "step " + std::to_string(i) + " was " + a + " described " + b; }
    VF_CHECK(diff.empty(), "construction-differs", diff << " in " << m.top.dump());
    VF_CHECK(order.size() == m.ids.size(), "block-count", order.size() << " blocks, described " << m.ids.size()); if (order.size() != m.ids.size()) return;
    std::map<std::string, std::string> id; for (size_t i = 0; i < order.size(); i++) id[order[i]] = m.ids[i]; id[t.uid()] = "<self>";
    const auto j = json::parse(t.dumpJSON("{\"mode\":\"top\"}")); std::multiset<std::string> got, want;
    for (auto &c : j.at("connections")) got.insert((id.count(c.at("srcId")) ? id[c.at("srcId")] : "?") + "|" + c.at("srcName").get<std::string>() + "|" + (id.count(c.at("dstId")) ? id[c.at("dstId")] : "?") + "|" + c.at("dstName").get<std::string>());
    for (auto &c : m.conns) want.insert(c[0] + "|" + c[1] + "|" + c[2] + "|" + c[3]);
    for (auto &x : got) if (!want.count(x)) diff += " extra " + x;
    for (auto &x : want) if (!got.count(x)) diff += " missing " + x;
    VF_CHECK(got == want, "connections-differ", diff << " in " << m.top.dump());
    if (j.count("blocks") && j.at("blocks").is_object()) for (auto it = j.at("blocks").begin(); it != j.at("blocks").end(); ++it) { auto x = id.find(it.key()); VF_CHECK(x != id.end(), "unknown-block", it.key()); if (x != id.end() && x->second != "<self>") VF_CHECK(it.value().at("name").get<std::string>() == x->second, "block-name", it.value().at("name").get<std::string>() << " described " << x->second); }
    count("topologies_compared");
}

static void goodCase(Rng &r, uint64_t)
{
    Model m; const std::string text = describe(m, r, false); g_log.clear(); g_uids.clear(); const auto alive0 = g_alive;
    std::shared_ptr<Topology> t; std::string err = caught([&] { t = Topology::make(text); }); VF_CHECK(err.empty(), "valid-description-refused", err << " in " << text);
    if (t)
    {
        compare(m, *t, g_uids);
    }
    t.reset(); VF_CHECK(g_alive == alive0, "instances-left", g_alive - alive0 << " after release of " << text); distinct(text); sample(text);
}

//! pools: blocks naming one pool share it, others keep their own
static std::vector<Rec *> g_recs;
struct PoolRec : Rec { PoolRec() : Rec("pool") { g_recs.push_back(this); } static Block *mk(void) { return new PoolRec(); } };
static void poolCase(Rng &r, uint64_t c)
{
    (void)c; json top; std::vector<std::string> names; for (auto p : {"a", "b", "c"}) if (r.chance(2, 3)) { json a = json::object(); if (r.flip()) a["numThreads"] = r.below(3); top["threadPools"][p] = a; names.push_back(p); }
    std::vector<std::string> use; const size_t n = 2 + r.below(4); top["blocks"] = json::array(); top["connections"] = json::array();
    for (size_t i = 0; i < n; i++) { json b; b["id"] = "b" + std::to_string(i); b["path"] = "/vf/pool"; std::string u; if (!names.empty() && r.chance(2, 3)) { u = r.pick(names); b["threadPool"] = u; } use.push_back(u); top["blocks"].push_back(b); if (i) top["connections"].push_back(json::array({"b" + std::to_string(i - 1), 0, "b" + std::to_string(i), 0})); }
    g_recs.clear(); auto t = Topology::make(top.dump()); const auto recs = g_recs; VF_CHECK(recs.size() == n, "block-count", recs.size()); if (recs.size() != n) return;
    for (size_t i = 0; i < n; i++) for (size_t k = i + 1; k < n; k++) { const bool same = !use[i].empty() && use[i] == use[k]; VF_CHECK((recs[i]->getThreadPool() == recs[k]->getThreadPool()) == same, "thread-pool-differs", i << " and " << k << " of " << top.dump()); count("pool_pairs"); }
    //the described connections carry messages once committed
    t->commit(); for (size_t i = 0; i + 1 < n; i++) recs[i + 1]->input(0)->pushMessage(Object(1)); VF_CHECK(waitUntil([&] { for (size_t i = 1; i < n; i++) if (recs[i]->got != 1) return false; return true; }, 6000), "described-blocks-do-not-run", top.dump());
    distinct(top.dump());
}

static void badCase(Rng &r, uint64_t)
{
    Model m; std::string text = describe(m, r, false); json j = m.top; bool must = true; std::string how; const size_t nb = m.ids.size();
    auto blk = [&]() -> json & { return j["blocks"][r.below(nb)]; }; const unsigned k = nb ? r.below(22) : 16 + r.below(3);
    switch (k)
    {
    case 0: blk().erase("id"); how = "no id"; break;
    case 1: blk().erase("path"); how = "no path"; break;
    case 2: blk()["path"] = "/vf/nosuch"; how = "unknown path"; break;
    case 3: { auto &b = blk(); b["path"] = "/vf/r1"; b["args"] = json::array({1, 2}); how = "too many args"; break; }
    case 4: { auto &b = blk(); b["path"] = "/vf/r1"; b["args"] = json::array({"certainly text"}); how = "unconvertible arg"; break; }
    case 5: { auto &b = blk(); b["path"] = "/vf/r2"; b["args"] = json::array(); how = "too few args"; break; }
    case 6: blk()["calls"] = json::array({json::array({"nosuchcall", 1})}); how = "unknown call"; break;
    case 7: blk()["calls"] = json::array({json::array({"refuse", r.below(2)})}); how = "throwing call"; break;
    case 8: blk()["calls"] = json::array({json::array({"setI", "certainly text"})}); how = "unconvertible call arg"; break;
    case 9: blk()["calls"] = json::array({json::array()}); how = "empty call"; break;
    case 10: blk()["calls"] = json::array({r.flip() ? json(5) : json("setI")}); how = "call not an array"; break;
    case 11: blk()["threadPool"] = "nosuchpool"; how = "unknown pool"; break;
    case 12: blk() = r.flip() ? json("text") : json(3); how = "block not an object"; break;
    case 13: blk()["locals"] = r.pick(std::vector<json>{json::array({5}), json::array({json{{"name", "x"}}}), json::array({json{{"value", 1}}}), json(7), json("text")}); how = "bad locals"; break;
    case 14: { auto &b = blk(); b["path"] = "/vf/bad"; b["args"] = json::array({1}); how = "throwing constructor"; break; }
    case 15: blk()["args"] = r.pick(std::vector<json>{json(5), json("text"), json{{"a", 1}}}); how = "args not an array"; break;
    case 16: j["connections"] = json::array({r.pick(std::vector<json>{json(1), json("x"), json::array({"self", 0, "self"}), json::array({"nosuch", 0, "self", 0}), json::array({"self", 0, "nosuch", 0}), json::array({1, 0, "self", 0}), json::array({"self", 0, "self", 0, 1})})}); how = "bad connection"; break;
    case 17: j["globals"] = r.pick(std::vector<json>{json(4), json("text"), json::array({json::array()}), json::array({json{{"name", 1}, {"value", 2}}})}); how = "bad globals"; break;
    case 18: j["threadPools"] = r.pick(std::vector<json>{json{{"p", json{{"yieldMode", "NO"}}}}, json{{"p", json{{"priority", 9}}}}, json{{"p", json{{"numThreads", "x"}}}}}); how = "bad pool"; break;
    case 19: j["connections"] = json::array({json::array({m.ids[0], "nosuchport", m.ids[0], 0})}); how = "unknown port"; break;
    case 20: j["connections"] = json::array({json::array({m.ids[0], 0, m.ids[0], "nosuchport"})}); how = "unknown port"; break;
    default: j["connections"] = json::array({json::array({m.ids[0], 0, m.ids[0], 0}), json::array({m.ids[0], "0", m.ids[0], "0"})}); how = "duplicate connection";
    }
    text = j.dump(); if (r.chance(1, 6)) { text = text.substr(0, text.size() - 1 - r.below(text.size() / 2)); how = "cut text"; }
    const auto alive0 = g_alive; g_log.clear(); g_uids.clear(); std::shared_ptr<Topology> t; const auto err = caught([&] { t = Topology::make(text); });
    VF_CHECK(!must || !err.empty(), "invalid-description-accepted", how << ": " << text); t.reset(); VF_CHECK(g_alive == alive0, "instances-left", g_alive - alive0 << " alive after refusing (" << how << ") " << text); count("invalid_refused"); count(std::string("refused: ") + how);
    distinct(how + text); if (r.chance(1, 40)) sample(how + ": " + text);
}

//! any JSON subtree replaced by any other: accepted or refused, nothing left behind, nothing undefined
static json randJson(Rng &r, int d) { switch (r.below(d > 0 ? 9 : 6)) { case 0: return nullptr; case 1: return r.flip(); case 2: return r.range(-5, 5); case 3: return double(r.range(-50, 50)) / 4; case 4: return r.pick(std::vector<std::string>{"", "self", "0", "blk0", "[", "1+1", "x", "/vf/r0", "setI"}); case 5: return json::array(); case 6: { json a = json::array(); for (unsigned n = r.below(4); n > 0; n--) a.push_back(randJson(r, d - 1)); return a; } default: { json o = json::object(); for (unsigned n = r.below(4); n > 0; n--) o[r.pick(std::vector<std::string>{"id", "path", "args", "calls", "locals", "name", "value", "threadPool", "x"})] = randJson(r, d - 1); return o; } } }
static void mutate(Rng &r, json &j) { if (j.is_structured() && !j.empty() && r.chance(4, 5)) { auto it = j.begin(); std::advance(it, r.below(j.size())); mutate(r, *it); } else if (j.is_array() && r.chance(1, 3)) { if (r.flip() && !j.empty()) j.erase(j.begin()); else j.push_back(randJson(r, 2)); } else j = randJson(r, 2); }
static void fuzzCase(Rng &r, uint64_t)
{
    Model m; describe(m, r, false); json j = m.top; for (unsigned k = 1 + r.below(3); k > 0; k--) mutate(r, j); const std::string text = j.dump(); const auto alive0 = g_alive; g_log.clear(); g_uids.clear(); std::shared_ptr<Topology> t;
    const auto err = caught([&] { t = Topology::make(text); }); count(err.empty() ? "mutants_accepted" : "mutants_refused"); t.reset(); VF_CHECK(g_alive == alive0, "instances-left", g_alive - alive0 << " after " << text); distinct(text);
}

//! descriptions registered as blocks through the conf loader; arguments override the globals in order
static void loaderCase(Rng &r, uint64_t c)
{
    const std::string dir = scratchDir(); const std::string jp = dir + "/t.json"; Model m; const bool noGlobals = r.chance(1, 4);
    json top; const size_t ng = noGlobals ? 0 : r.below(4); std::vector<std::string> def; if (!noGlobals) { top["globals"] = json::array(); for (size_t i = 0; i < ng; i++) { Val v; Scope none; json o; o["name"] = "g" + std::to_string(i); o["value"] = spell(r, none, v, r.pick(std::vector<char>{'n', 's', 'b', 'v'})); def.push_back(v.norm()); top["globals"].push_back(o); } }
    json b; b["id"] = "inner"; b["path"] = "/vf/ro"; b["args"] = json::array(); for (size_t i = 0; i < ng; i++) b["args"].push_back("g" + std::to_string(i)); top["blocks"] = json::array({b}); top["connections"] = json::array({json::array({"self", "in", "inner", 0}), json::array({"inner", "out", "self", "out"})});
    { std::ofstream f(jp); f << top.dump(); } const std::string path = "/vf/json/t" + std::to_string(c) + "x" + std::to_string(r.below(1000000)); std::map<std::string, std::string> conf{{"confFilePath", dir + "/t.conf"}, {"json", "t.json"}, {"path", path}, {"loader", "json_topology"}};
    const auto loader = PluginRegistry::get("/framework/conf_loader/json_topology").getObject().extract<Callable>(); std::vector<PluginPath> entries; std::string err;
    if (r.chance(1, 6)) { auto bad = conf; switch (r.below(4)) { case 0: bad.erase("json"); break; case 1: bad.erase("path"); break; case 2: bad["json"] = "missing.json"; break; default: bad.erase("confFilePath"); } VF_CHECK(!caught([&] { entries = loader.call(bad).convert<std::vector<PluginPath>>(); }).empty(), "bad-conf-accepted", "loader"); count("bad_confs"); }
    err = caught([&] { entries = loader.call(conf).convert<std::vector<PluginPath>>(); }); VF_CHECK(err.empty() && entries.size() == 1 && entries[0] == PluginPath("/blocks", path), "loader-entries", err << " " << entries.size());
    for (int round = 0; err.empty() && round < 3; round++)
    {
        const size_t na = r.below(ng + 2); ObjectVector args; std::string want = "new ro("; for (size_t i = 0; i < na; i++) { const unsigned k = r.below(6); std::string w; switch (k) { case 0: { const int v = int(r.range(-1000, 1000)); args.emplace_back(v); w = show(v); break; } case 1: { const double v = r.pick(std::vector<double>{0.5, 1e-9, 123456.75, -3.25e-7, 2.5e12}); args.emplace_back(v); w = show(v); break; } case 2: { const std::string v = r.pick(std::vector<std::string>{"text", "two words", "x+y", "3"}); args.emplace_back(v); w = "s:" + v; break; } case 3: { const bool v = r.flip(); args.emplace_back(v); w = v ? "T" : "F"; break; } case 4: { const unsigned long long v = r.below(1000); args.emplace_back(v); w = show(double(v)); break; } default: { std::vector<int> v; w = "["; for (unsigned q = 1 + r.below(3); q > 0; q--) { v.push_back(int(q)); w += show(q) + ","; } w += "]"; args.emplace_back(v); } } if (i < ng) want += w + ";"; }
        for (size_t i = na; i < ng; i++) want += def[i] + ";"; want += ")"; const auto alive0 = g_alive; g_log.clear(); g_uids.clear(); Proxy t; auto env = ProxyEnvironment::make("managed"); auto reg = env->findProxy("Pothos/BlockRegistry"); std::vector<Proxy> pa; for (auto &o : args) pa.push_back(env->convertObjectToProxy(o));
        const auto e = caught([&] { t = reg.getHandle()->call(path, pa.data(), pa.size()); });
        if (na > ng) { VF_CHECK(!e.empty(), "too-many-args-accepted", na << " for " << ng << " globals"); count("loader_refused"); }
        else { VF_CHECK(e.empty(), "loaded-topology-refused", e << " with " << na << " args for " << top.dump()); if (e.empty()) { VF_CHECK(g_log.size() == 1 && g_log[0] == want, "loaded-construction-differs", (g_log.empty() ? std::string("nothing") : g_log[0]) << " expected " << want); const auto in = t.call<std::vector<std::string>>("inputPortNames"); VF_CHECK(in.size() == 1 && in[0] == "in", "loaded-ports", in.size()); count("loaded_topologies"); } }
        t = Proxy(); VF_CHECK(g_alive == alive0, "instances-left", g_alive - alive0 << " after loader round"); distinct(want + top.dump());
    }
    for (auto &p : entries) PluginRegistry::remove(p); unlink(jp.c_str()); rmdir(dir.c_str()); sample(top.dump());
}

int main(int argc, char **argv)
{
    initLib(); registerAll(); BlockRegistry("/vf/pool", &PoolRec::mk);
    return run(argc, argv, {{"good", goodCase}, {"pool", poolCase}, {"bad", badCase}, {"fuzz", fuzzCase}, {"loader", loaderCase}});
}
