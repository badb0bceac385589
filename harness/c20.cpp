// C20: the plugin registry is a consistent path tree under concurrency
#include "vfp.hpp"
#include <Pothos/Plugin.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <memory>
#include <algorithm>
#include <fstream>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf; using namespace Pothos;

static bool refValid(const std::string &p)
{
    if (p == "/") return true; if (p.empty() || p[0] != '/' || p.back() == '/') return false;
    for (size_t i = 0; i < p.size(); i++) { const char c = p[i]; if (c == '/') { if (i + 1 < p.size() && p[i + 1] == '/') return false; continue; } if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-')) return false; }
    return true;
}
static std::vector<std::string> refNodes(const std::string &p) { std::vector<std::string> o; std::string cur; for (char c : p) { if (c == '/') { if (!cur.empty()) o.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) o.push_back(cur); return o; }

static void pathCase(Rng &r, uint64_t c)
{
    std::string sig;
    for (int k = 0; k < 60; k++)
    {
        std::string p; const unsigned kind = unsigned(r.below(4));
        if (kind == 0) p = randString(r, 12); else for (size_t n = r.below(5); n > 0; n--) { p += "/"; for (size_t m = r.below(kind == 1 ? 4 : 6) + (kind == 3); m > 0; m--) p += "abZz09_-./ \\:\n\x80@[`{"[r.below(kind == 3 ? 8 : 20)]; }
        if (r.chance(1, 20)) p = "/"; if (r.chance(1, 20)) p = "";
        const bool good = refValid(p); const int how = int(r.below(3)); if (how == 1 && p.find('\0') != std::string::npos) continue;
        std::unique_ptr<PluginPath> x; bool threw = false;
        try { if (how == 1) x.reset(new PluginPath(p.c_str())); else x.reset(new PluginPath(p)); } catch (const PluginPathError &) { threw = true; }
        VF_CHECK(threw == !good, good ? "valid-path-rejected" : "malformed-path-accepted", "'" << p << "'"); count(good ? "valid_paths" : "rejected_paths"); sig += good ? "g" : "b";
        if (!x || !good) continue;
        VF_CHECK(x->toString() == p && x->listNodes() == refNodes(p), "path-decomposition", p); VF_CHECK(PluginPath(x->toString()) == *x, "path-round-trip", p);
        PluginPath re; for (auto &n : x->listNodes()) re = re.join(n); VF_CHECK(re == *x, "path-composition", p << " became " << re.toString());
        std::string q = "/"; if (r.chance(3, 4)) { q.clear(); for (size_t n = 1 + r.below(3); n > 0; n--) q += "/n" + std::to_string(r.below(9)); }
        PluginPath y(q); std::string e; const auto err = caught([&]{ e = PluginPath(*x, y).toString(); }); auto want = refNodes(p); for (auto &n : refNodes(q)) want.push_back(n);
        VF_CHECK(err.empty() && refValid(e) && refNodes(e) == want, "path-concatenation", p << " and " << q << ": " << e << err);
        VF_CHECK((*x == y) == (p == q), "path-equality", p << " " << q); PluginPath z(*x); z = y; VF_CHECK(z == y && x->toString() == p, "path-copy", p);
        const std::string sub = r.chance(1, 3) ? std::string("a b") : r.chance(1, 3) ? std::string("") : std::string("k/l"); const std::string full = (p == "/" ? "" : p) + "/" + sub; std::string j; const auto je = caught([&]{ j = x->join(sub).toString(); });
        if (sub == "" && p == "/") {} else VF_CHECK(je.empty() == refValid(full) && (!je.empty() || j == full), "path-join", p << " + " << sub << " = " << j << je);
    }
    if (c == 0) sample("60 random paths, pattern " + sig); distinct(sig);
}

//! registered handlers log what they are told
struct Ev { std::string path, event; int id; };
struct Handler { std::vector<Ev> log; bool throws = false; };
static std::map<int, std::shared_ptr<Handler>> handlers; //only touched by the sequential mode
struct Payload { int id; };
static int idOf(const Object &o) { return o.type() == typeid(Payload) ? o.extract<Payload>().id : -1; }

static void seqCase(Rng &r, uint64_t c)
{
    const std::string root = "/vfs" + std::to_string(c) + "x" + std::to_string(r.below(1000)); std::string sig;
    std::vector<std::string> uni; for (const char *a : {"", "/a", "/b", "/a/x", "/a/y", "/a/x/1", "/a/x/2", "/b/x", "/b/x/1/deep", "/ab", "/a/x1"}) uni.push_back(root + a);
    struct Node { int id; std::shared_ptr<Handler> h; }; std::map<std::string, Node> m; std::map<std::string, int> firstAdd; std::set<std::string> everRemoved; int next = 1, order = 0; std::vector<std::shared_ptr<Handler>> gone; //handlers that were removed: told of nothing any more
    auto under = [](const std::string &anc, const std::string &p) { return p.size() > anc.size() && p.compare(0, anc.size(), anc) == 0 && p[anc.size()] == '/'; };
    for (size_t n = 20 + r.below(60); n > 0; n--)
    {
        const std::string p = r.pick(uni); const unsigned op = unsigned(r.below(8)); sig += std::to_string(op) + p.substr(root.size());
        for (auto &x : m) if (x.second.h) x.second.h->log.clear(); for (auto &h : gone) h->log.clear();
        std::vector<std::pair<std::shared_ptr<Handler>, Ev>> expect;
        if (op <= 2)
        {
            const bool handler = r.chance(1, 3); auto h = handler ? std::make_shared<Handler>() : nullptr; if (h) h->throws = r.chance(1, 6); const int id = next++; bool threw = false;
            try
            {
                if (handler) { std::function<void(const Plugin &, const std::string &)> f = [h](const Plugin &pl, const std::string &e) { h->log.push_back(Ev{pl.getPath().toString(), e, idOf(pl.getObject())}); if (h->throws) throw std::runtime_error("handler"); }; PluginRegistry::addCall(p, f); }
                else if (r.flip()) PluginRegistry::add(p, Payload{id}); else PluginRegistry::add(Plugin(p, Object(Payload{id})));
            } catch (const PluginRegistryError &) { threw = true; }
            VF_CHECK(threw == (m.count(p) != 0), threw ? "add-refused" : "add-replaced", p); count(threw ? "refused_adds" : "adds");
            if (!threw)
            {
                const std::string rel = p; for (size_t i = 1; i <= rel.size(); i++) if (i == rel.size() || rel[i] == '/') { const auto pre = rel.substr(0, i); if (!firstAdd.count(pre)) firstAdd[pre] = order++; }
                for (auto &x : m) if (x.second.h && under(x.first, p)) expect.push_back({x.second.h, Ev{p, "add", handler ? -1 : id}});
                m[p] = Node{handler ? -1 : id, h}; if (h) { for (auto &x : m) if (under(p, x.first)) expect.push_back({h, Ev{x.first, "add", x.second.id}}); count("handlers"); }
            }
        }
        else if (op == 3 || op == 4)
        {
            Plugin got; bool threw = false; try { got = PluginRegistry::remove(p); } catch (const PluginRegistryError &) { threw = true; }
            VF_CHECK(threw == (m.count(p) == 0), threw ? "remove-refused" : "removed-missing", p); count(threw ? "refused_removes" : "removes");
            if (!threw && m.count(p)) { VF_CHECK(got.getPath().toString() == p && idOf(got.getObject()) == m[p].id, "removed-wrong-plugin", p); const int id = m[p].id; if (m[p].h) gone.push_back(m[p].h); m.erase(p); for (auto &x : m) if (x.second.h && under(x.first, p)) expect.push_back({x.second.h, Ev{p, "remove", id}}); for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') everRemoved.insert(p.substr(0, i)); }
        }
        //compare events
        {
            std::map<Handler *, std::multiset<std::string>> want, got; for (auto &e : expect) want[e.first.get()].insert(e.second.event + e.second.path + "#" + std::to_string(e.second.id)); for (auto &x : m) if (x.second.h) for (auto &e : x.second.h->log) got[x.second.h.get()].insert(e.event + e.path + "#" + std::to_string(e.id));
            for (auto &h : gone) { VF_CHECK(h->log.empty(), "events-after-removal", "after op " << op << " " << p); count("removed_handlers"); }
            VF_CHECK(want == got, "events", "after op " << op << " " << p << " expected " << expect.size()); count("events", expect.size());
        }
        //whole tree
        for (auto &q : uni)
        {
            const bool has = m.count(q) != 0; bool below = has; std::map<std::string, int> kids; for (auto &x : m) if (under(q, x.first)) { below = true; kids[refNodes(x.first.substr(q.size()))[0]]++; }
            VF_CHECK(PluginRegistry::empty(q) == !has, "empty", q); VF_CHECK(PluginRegistry::exists(q) == below, "exists", q); const auto l = PluginRegistry::list(q); std::set<std::string> ls(l.begin(), l.end()), ks; for (auto &k : kids) ks.insert(k.first); VF_CHECK(ls == ks && l.size() == ls.size(), "list", q << " lists " << l.size() << " for " << ks.size());
            for (size_t i = 0; i + 1 < l.size(); i++) { const auto a = q + "/" + l[i], b = q + "/" + l[i + 1]; if (!everRemoved.count(a) && !everRemoved.count(b)) VF_CHECK(firstAdd[a] < firstAdd[b], "list-order", a << " before " << b); }
            bool threw = false; Plugin g; try { g = PluginRegistry::get(q); } catch (const PluginRegistryError &) { threw = true; } VF_CHECK(threw == !has, threw ? "get-refused" : "got-missing", q); if (!threw && has) VF_CHECK(g.getPath().toString() == q && idOf(g.getObject()) == m[q].id, "got-wrong-plugin", q);
        }
        count("trees_checked");
    }
    //the dump shows the same tree
    std::map<std::string, std::string> dumped; std::function<void(const PluginRegistryInfoDump &)> walk = [&](const PluginRegistryInfoDump &d) { if (!d.objectType.empty()) dumped[d.pluginPath] = d.objectType; for (auto &s : d.subInfo) walk(s); }; walk(PluginRegistry::dump());
    for (auto &q : uni) VF_CHECK((dumped.count(q) != 0) == (m.count(q) != 0), "dump", q);
    for (auto &x : std::map<std::string, Node>(m)) PluginRegistry::remove(x.first); VF_CHECK(!PluginRegistry::exists(root), "exists", "after removing everything"); { const auto l = PluginRegistry::list("/"); VF_CHECK(std::find(l.begin(), l.end(), root.substr(1)) == l.end(), "list", "empty subtree still listed"); }
    if (c < 2) sample(sig); distinct(sig);
}

//! types registered by plugins, and gone with them
template <int N> struct Ty { int v; std::string str(void) const { return "ty" + std::to_string(v); } int inc(void) { return ++v; } Ty(void) : v(0) {} explicit Ty(int x) : v(x) {} };
template <int N> static std::string tyToStr(const Ty<N> &t) { return "T" + std::to_string(N) + "/" + std::to_string(t.v); }
template <int N> static int tyToInt(const Ty<N> &t) { return t.v; }
template <int N> static Ty<N + 1> tyToNext(const Ty<N> &t) { return Ty<N + 1>(t.v + 1); }
template <int N> static int tyCmp(const Ty<N> &a, const Ty<N> &b) { return a.v - b.v; }
template <int N> static size_t tyHash(const Ty<N> &a) { return size_t(a.v * 3 + 1); }
template <int N> static void typesOf(Rng &r, std::string &sig)
{
    struct On { bool conv = false, next = false, cmp = false, hash = false, str = false, cls = false; } on; auto env = ProxyEnvironment::make("managed"); const std::string b = "/vfty" + std::to_string(N);
    const int v = int(r.range(-50, 50)); const Object o{Ty<N>(v)}, o2{Ty<N>(v + 1)}; const std::string defStr = o.toString();
    for (int k = 0; k < 14; k++)
    {
        const int what = int(r.below(6)); sig += std::to_string(what);
        switch (what)
        {
        case 0: if (on.conv) PluginRegistry::remove("/object/convert" + b); else PluginRegistry::addCall("/object/convert" + b, &tyToInt<N>); on.conv = !on.conv; break;
        case 1: if (on.next) PluginRegistry::remove("/object/convert" + b + "/next"); else PluginRegistry::addCall("/object/convert" + b + "/next", &tyToNext<N>); on.next = !on.next; break;
        case 2: if (on.cmp) PluginRegistry::remove("/object/compare" + b); else PluginRegistry::addCall("/object/compare" + b, &tyCmp<N>); on.cmp = !on.cmp; break;
        case 3: if (on.hash) PluginRegistry::remove("/object/hash" + b); else PluginRegistry::addCall("/object/hash" + b, &tyHash<N>); on.hash = !on.hash; break;
        case 4: if (on.str) PluginRegistry::remove("/object/tostring" + b); else PluginRegistry::addCall("/object/tostring" + b, &tyToStr<N>); on.str = !on.str; break;
        default: if (on.cls) ManagedClass::unload("vfty" + std::to_string(N)); else { ManagedClass mc; mc.registerConstructor<Ty<N>>(); mc.registerConstructor<Ty<N>, int>(); mc.registerMethod("inc", &Ty<N>::inc); mc.registerMethod("str", &Ty<N>::str); mc.commit("vfty" + std::to_string(N)); } on.cls = !on.cls;
        }
        VF_CHECK(o.canConvert(typeid(int)) == on.conv, "conversion-ability", "registered " << on.conv); { int x = 0; const auto e = caught([&]{ x = o.convert<int>(); }); if (on.conv) VF_CHECK(e.empty() && x == v, "conversion", e); else VF_CHECK(!e.empty(), "removed-conversion-used", ""); if (!on.conv) try { o.convert(typeid(int)); } catch (const ObjectConvertError &) { count("clean_errors"); } catch (const Exception &ex) { violation("error-type", ex.displayText()); } }
        { Object nx; const auto e = caught([&]{ nx = o.convert(typeid(Ty<N + 1>)); }); VF_CHECK(e.empty() == (on.next || (on.conv && false)), on.next ? "conversion" : "removed-conversion-used", e); if (on.next && e.empty()) VF_CHECK(nx.template extract<Ty<N + 1>>().v == v + 1, "conversion", "value"); }
        { int x = 0; std::string e; bool clean = false; try { x = o.compareTo(o2); } catch (const ObjectCompareError &ex) { e = ex.displayText(); clean = true; } catch (const Exception &ex) { e = ex.displayText(); } if (on.cmp) VF_CHECK(e.empty() && x < 0 && o2.compareTo(o) > 0, "comparison", e); else if (!on.conv) { VF_CHECK(!e.empty(), "removed-comparison-used", ""); VF_CHECK(clean, "error-type", e); count("clean_errors"); } }
        { std::string e; size_t h = 0; e = caught([&]{ h = o.hashCode(); }); VF_CHECK(e.empty(), "hash", e); if (on.hash) VF_CHECK(h == size_t(v * 3 + 1), "hash", h); else VF_CHECK(h != size_t(v * 3 + 1), "removed-hash-used", h); }
        { std::string s; const auto e = caught([&]{ s = o.toString(); }); VF_CHECK(e.empty(), "to-string", e); if (on.str) VF_CHECK(s == tyToStr(Ty<N>(v)), "to-string", s); else if (!on.conv) VF_CHECK(s == defStr, "removed-to-string-used", s); }
        { Proxy p = env->convertObjectToProxy(Object(Ty<N>(v))); std::string e; int x = 0; e = caught([&]{ x = p.call("inc").convert<int>(); }); if (on.cls) VF_CHECK(e.empty() && x == v + 1, "managed-call", e); else { VF_CHECK(!e.empty(), "removed-class-used", ""); count("clean_errors"); }
          const auto fe = caught([&]{ env->findProxy("vfty" + std::to_string(N)).call("()", 7); }); VF_CHECK(fe.empty() == on.cls, on.cls ? "managed-construct" : "removed-class-used", fe);
          bool found = false; try { ManagedClass::lookup(typeid(Ty<N>)); found = true; } catch (const ManagedClassLookupError &) {} catch (const Exception &ex) { violation("error-type", ex.displayText()); } VF_CHECK(found == on.cls, "class-lookup", found);
          VF_CHECK(Object(5).canConvert(typeid(Ty<N>)) == on.cls, "conversion-ability", "constructor"); }
        count("type_checks");
    }
    if (on.conv) PluginRegistry::remove("/object/convert" + b); if (on.next) PluginRegistry::remove("/object/convert" + b + "/next"); if (on.cmp) PluginRegistry::remove("/object/compare" + b); if (on.hash) PluginRegistry::remove("/object/hash" + b); if (on.str) PluginRegistry::remove("/object/tostring" + b); if (on.cls) ManagedClass::unload("vfty" + std::to_string(N));
}
static void typesCase(Rng &r, uint64_t c) { std::string sig; typesOf<0>(r, sig); sig += "/"; typesOf<10>(r, sig); if (c < 1) sample("plugin toggles " + sig); distinct(sig); }

//! concurrent histories, checked per path for a sequential explanation
struct Rec { uint64_t t0, t1; int op, arg; bool ok; int got; }; //op 0 add 1 remove 2 get 3 empty
static bool linear(std::vector<Rec> v, int initial)
{
    const size_t n = v.size(); if (n > 60) return true; std::set<std::pair<uint64_t, int>> dead;
    std::function<bool(uint64_t, int)> go = [&](uint64_t done, int state) -> bool
    {
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true; if (dead.count({done, state})) return false;
        uint64_t minEnd = ~0ull; for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) minEnd = std::min(minEnd, v[i].t1);
        for (size_t i = 0; i < n; i++)
        {
            if (done >> i & 1 || v[i].t0 > minEnd) continue; int ns = state; bool fits = false;
            switch (v[i].op) { case 0: fits = v[i].ok == (state == 0); if (v[i].ok) ns = v[i].arg; break; case 1: fits = v[i].ok == (state != 0) && (!v[i].ok || v[i].got == state); if (v[i].ok) ns = 0; break; case 2: fits = v[i].ok == (state != 0) && (!v[i].ok || v[i].got == state); break; default: fits = v[i].ok == (state == 0); }
            if (fits && go(done | 1ull << i, ns)) return true;
        }
        dead.insert({done, state}); return false;
    };
    return go(0, initial);
}
static std::atomic<uint64_t> clk{0};
static std::atomic<int> evAdd[64], evRem[64];
static void mtHandler(const Plugin &p, const std::string &e) { if (p.getObject().type() != typeid(Payload)) return; const int id = p.getObject().extract<Payload>().id % 64; (e == "add" ? evAdd : evRem)[id].fetch_add(1, std::memory_order_relaxed); }
static void mtCase(Rng &r, uint64_t c)
{
    const std::string root = "/vfm" + std::to_string(c) + "x" + std::to_string(r.below(1000)); const unsigned nt = 2 + unsigned(r.below(4)), np = 1 + unsigned(r.below(4)); clk = 0; for (auto &x : evAdd) x = 0; for (auto &x : evRem) x = 0;
    std::vector<std::string> paths; for (unsigned i = 0; i < np; i++) paths.push_back(root + (i % 2 ? "/d/p" : "/p") + std::to_string(i));
    PluginRegistry::addCall(root, &mtHandler); PluginRegistry::add(root + "/stable", Payload{1}); evAdd[1] = 0; const uint64_t perPath = 40 / nt;
    std::vector<std::vector<std::vector<Rec>>> recs(nt, std::vector<std::vector<Rec>>(np)); std::vector<std::thread> ts; std::atomic<int> bad{0}, go{0};
    for (unsigned t = 0; t < nt; t++) ts.emplace_back([&, t]
    {
        Rng q(c * 7919 + t); go++; while (go.load(std::memory_order_relaxed) < int(nt)) std::this_thread::yield();
        for (uint64_t k = 0; k < perPath; k++) for (unsigned i = 0; i < np; i++)
        {
            Rec x; const unsigned o = unsigned(q.below(10)); x.op = o < 4 ? 0 : o < 7 ? 1 : o < 9 ? 2 : 3; x.arg = int((k * np + i) * nt + t + 1) * 64 + 8 + int(i); x.got = 0; x.ok = true; x.t0 = clk.fetch_add(1, std::memory_order_relaxed);
            try { if (x.op == 0) PluginRegistry::add(paths[i], Payload{x.arg}); if (x.op == 1) x.got = idOf(PluginRegistry::remove(paths[i]).getObject()); if (x.op == 2) x.got = idOf(PluginRegistry::get(paths[i]).getObject()); if (x.op == 3) x.ok = PluginRegistry::empty(paths[i]); } catch (const PluginRegistryError &) { x.ok = false; }
            x.t1 = clk.fetch_add(1, std::memory_order_relaxed); recs[t][i].push_back(x);
            if (q.chance(1, 6)) { const auto l = PluginRegistry::list(root); std::set<std::string> u(l.begin(), l.end()); if (u.size() != l.size() || !u.count("stable") || !PluginRegistry::exists(root + "/stable")) bad++; }
            if (q.chance(1, 10)) { try { PluginRegistry::get(root + "/none" + std::to_string(q.below(50)) + "/x"); bad++; } catch (const PluginRegistryError &) {} if (PluginRegistry::exists(root + "/nil" + std::to_string(q.below(50)))) bad++; }
            if (q.chance(1, 12)) { const std::string mine = root + "/own" + std::to_string(t) + "/" + std::to_string(k) + "a" + std::to_string(i); PluginRegistry::add(mine, Payload{2}); if (idOf(PluginRegistry::get(mine).getObject()) != 2) bad++; PluginRegistry::remove(mine); if (!PluginRegistry::empty(mine)) bad++; }
            if (q.chance(1, 40)) PluginRegistry::dump();
        }
    });
    for (auto &t : ts) t.join();
    VF_CHECK(bad == 0, "concurrent-query", bad << " wrong answers"); uint64_t hist = 0; std::string sig;
    for (unsigned i = 0; i < np; i++)
    {
        std::vector<Rec> v; for (unsigned t = 0; t < nt; t++) v.insert(v.end(), recs[t][i].begin(), recs[t][i].end()); std::sort(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.t0 < b.t0; }); hist += v.size(); unsigned overlaps = 0; for (size_t k = 0; k + 1 < v.size(); k++) if (v[k + 1].t0 < v[k].t1) overlaps++; count("overlapping_ops", overlaps);
        for (auto &x : v) sig += char('0' + x.op * 2 + x.ok); std::ostringstream o; for (auto &x : v) o << "[" << x.t0 << "-" << x.t1 << " " << "arge"[x.op] << x.arg << (x.ok ? " ok " : " no ") << x.got << "]"; VF_CHECK(linear(v, 0), "not-linearizable", paths[i] << ": " << o.str());
        int adds = 0, rems = 0; for (auto &x : v) { if (x.op == 0 && x.ok) adds++; if (x.op == 1 && x.ok) rems++; } VF_CHECK(evAdd[8 + i] == adds && evRem[8 + i] == rems, "events", paths[i] << ": " << evAdd[8 + i] << "/" << adds << " adds, " << evRem[8 + i] << "/" << rems << " removes"); count("concurrent_events", adds + rems);
        if (!PluginRegistry::empty(paths[i])) PluginRegistry::remove(paths[i]);
    }
    PluginRegistry::remove(root + "/stable"); PluginRegistry::remove(root); VF_CHECK(!PluginRegistry::exists(root), "exists", "after all removed"); count("history_ops", hist); distinct(sig); if (c < 2) sample(std::to_string(nt) + " threads, " + std::to_string(np) + " paths, outcomes " + sig);
}
//! converters come and go while other threads convert
template <int K> static std::string churnConv(const Ty<K> &t) { return std::to_string(t.v); }
static void churnCase(Rng &r, uint64_t c)
{
    std::atomic<bool> stop{false}; std::atomic<int> bad{0}; std::atomic<uint64_t> n{0}; std::vector<std::thread> ts; const bool cls = r.flip();
    for (unsigned t = 0; t < 2 + r.below(3); t++) ts.emplace_back([&, t]{ Rng q(c * 31 + t); auto env = ProxyEnvironment::make("managed"); while (!stop) { const int v = int(q.range(0, 999)); try { if (Object(Ty<90>(v)).convert<std::string>() != std::to_string(v)) bad++; } catch (const ObjectConvertError &) {} if (Object(v).convert<double>() != v) bad++; if (Object(v).compareTo(Object(v + 1)) >= 0) bad++; try { Object a{Ty<90>(v)}, b{Ty<90>(v + 1)}; if (a.compareTo(b) >= 0) bad++; } catch (const ObjectCompareError &) {} Object(Ty<90>(v)).hashCode(); Object(Ty<90>(v)).toString(); if (cls) try { if (env->convertObjectToProxy(Object(Ty<90>(v))).call("inc").convert<int>() != v + 1) bad++; } catch (const Exception &) {} n++; } });
    for (int k = 0; k < 12; k++) { PluginRegistry::addCall("/object/convert/vfchurn", &churnConv<90>); PluginRegistry::addCall("/object/compare/vfchurn", &tyCmp<90>); PluginRegistry::addCall("/object/hash/vfchurn", &tyHash<90>); PluginRegistry::addCall("/object/tostring/vfchurn", &tyToStr<90>); if (cls) ManagedClass().registerConstructor<Ty<90>>().registerMethod("inc", &Ty<90>::inc).commit("vfchurn"); if (r.flip()) std::this_thread::yield();
        PluginRegistry::remove("/object/convert/vfchurn"); PluginRegistry::remove("/object/compare/vfchurn"); PluginRegistry::remove("/object/hash/vfchurn"); PluginRegistry::remove("/object/tostring/vfchurn"); if (cls) ManagedClass::unload("vfchurn"); }
    waitUntil([&]{ return n >= 20; }); stop = true; for (auto &t : ts) t.join(); VF_CHECK(bad == 0, "concurrent-wrong-result", bad); count("churned_types", 12); count("conversions_during_churn", n); distinct(r.next()); if (c == 0) sample("12 add/remove rounds of one type's converters");
}
//! modules: what is registered while a module loads belongs to it, and goes away with it
static thread_local std::function<void(void)> g_onLoad;
extern "C" void vfModuleLoaded(void) { if (g_onLoad) g_onLoad(); }
static void copyFile(const std::string &a, const std::string &b) { std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf(); if (!i || !o) { fprintf(stderr, "cannot copy %s\n", a.c_str()); _exit(3); } }
struct ModuleWorld
{
    Rng r; std::string dir, base, src, sig; unsigned files = 0, names = 0; bool alone;
    struct Handle { PluginModule m; size_t group; }; struct Group { std::string file, version; std::vector<std::string> all; unsigned refs = 0; bool first = false; };
    std::vector<Handle> hs; std::vector<Group> gs; std::map<std::string, size_t> reg; //path -> group (or NONE)
    enum : size_t { NONE = size_t(-1) };
    ModuleWorld(Rng q, const std::string &d, const std::string &b, bool al) : r(q), dir(d), base(b), alone(al) { char e[4096]; const ssize_t n = readlink("/proc/self/exe", e, sizeof(e)); src = std::string(e, n > 0 ? size_t(n) : 0); src = src.substr(0, src.rfind('/')) + "/vfmod.so"; }
    bool fileLive(const std::string &f) { for (auto &h : hs) if (gs[h.group].file == f) return true; return false; }
    void check(const char *when)
    {
        for (auto &x : reg)
        {
            std::string err; Plugin p; err = caught([&] { p = PluginRegistry::get(x.first); }); VF_CHECK(err.empty(), "module-plugin-missing", x.first << " " << when << " " << sig << " " << err); if (!err.empty()) continue;
            const auto m = p.getModule().getFilePath(), want = x.second == NONE ? std::string() : gs[x.second].file; VF_CHECK(m == want, "wrong-module", x.first << " belongs to '" << m << "' instead of '" << want << "' " << when << " " << sig); if (x.second != NONE) VF_CHECK(p.getModule().getVersion() == gs[x.second].version, "wrong-module-version", x.first << " " << p.getModule().getVersion());
            count("attributions");
        }
        size_t n = 0; for (auto &l : PluginRegistry::list(base)) { n++; VF_CHECK(reg.count(base + "/" + l), "module-plugin-left", l << " " << when << " " << sig); } VF_CHECK(n == reg.size(), "module-plugin-count", n << " of " << reg.size() << " " << when << " " << sig);
    }
    void drop(size_t k)
    {
        const size_t g = hs[k].group; const bool last = gs[g].refs == 1; if (last) for (auto it = reg.begin(); it != reg.end();) { if (it->second == g) { it = reg.erase(it); count("plugins_unloaded"); } else ++it; }
        gs[g].refs--; hs.erase(hs.begin() + k); if (last) count("modules_unloaded"); //destroys the handle
    }
    void load(const std::string &f)
    {
        Group g; g.file = f; const bool before = fileLive(f); bool ran = false; std::vector<std::string> refused;
        g_onLoad = [&] { ran = true; if (r.flip()) { g.version = "v" + std::to_string(r.below(100)); ModuleVersion mv(g.version); } for (size_t n = r.below(5); n > 0; n--) { std::string p = base + "/p" + std::to_string(r.chance(1, 6) && names ? r.below(names) : names++); const bool used = reg.count(p) || std::count(g.all.begin(), g.all.end(), p); const auto e = caught([&] { PluginRegistry::add(Plugin(p, Object(int(n)))); }); VF_CHECK(e.empty() == !used, "module-add", p << " " << e); if (e.empty()) g.all.push_back(p); } };
        PluginModule m; const auto e = caught([&] { m = PluginModule(f); }); g_onLoad = nullptr; VF_CHECK(e.empty(), "module-load-failed", e); if (!e.empty()) return;
        VF_CHECK(ran == !before || before, "module-not-run", f); sig += ran ? "L" : "l"; count(ran ? "modules_loaded" : "modules_reloaded");
        VF_CHECK(m && m.getFilePath() == f && m.getVersion() == g.version, "module-info", m.getFilePath() << " " << m.getVersion()); if (ran) { auto a = m.getPluginPaths(); VF_CHECK(a == g.all, "module-plugin-list", a.size() << " instead of " << g.all.size() << " " << sig); }
        g.refs = 1; gs.push_back(g); for (auto &p : g.all) reg[p] = gs.size() - 1; hs.push_back(Handle{m, gs.size() - 1});
    }
    void step(void)
    {
        const unsigned what = unsigned(r.below(12));
        if (what < 3) { const std::string f = dir + "/m" + std::to_string(files++) + ".so"; copyFile(src, f); load(f); }
        else if (what == 3 && !gs.empty()) load(gs[r.below(gs.size())].file);
        else if (what == 4)
        {
            std::string f = dir + "/bad" + std::to_string(files++) + ".so"; if (r.flip()) { std::ofstream o(f); o << (r.flip() ? "" : "not a library"); }
            bool threw = false; try { PluginModule m(f); } catch (const PluginModuleError &) { threw = true; } VF_CHECK(threw, "bad-module-accepted", f); count("bad_modules"); sig += "b";
        }
        else if (what < 7) { const std::string p = base + "/p" + std::to_string(r.chance(1, 5) && names ? r.below(names) : names++); const bool used = reg.count(p); const auto e = caught([&] { PluginRegistry::add(Plugin(p, Object(1))); }); VF_CHECK(e.empty() == !used, "module-add", p << " " << e); if (e.empty()) reg[p] = NONE; sig += "a"; }
        else if (what < 9 && !reg.empty()) { auto it = reg.begin(); std::advance(it, r.below(reg.size())); const auto e = caught([&] { PluginRegistry::remove(it->first); }); VF_CHECK(e.empty(), "module-remove", it->first << " " << e); if (it->second != NONE) count("module_plugins_removed"); reg.erase(it); sig += "r"; }
        else if (what == 9 && !hs.empty()) { const size_t k = r.below(hs.size()); Handle h = hs[k]; gs[h.group].refs++; hs.push_back(h); sig += "c"; }
        else if (!hs.empty()) { drop(r.below(hs.size())); sig += "d"; }
        progress();
    }
    void finish(void) { while (!hs.empty()) { drop(r.below(hs.size())); check("unloading"); } for (auto &x : reg) { const auto e = caught([&] { PluginRegistry::remove(x.first); }); VF_CHECK(e.empty(), "module-remove", x.first << " " << e); } reg.clear(); check("at the end"); }
};
static void modulesCase(Rng &r, uint64_t c)
{
    const auto dir = scratchDir(); const size_t nt = r.flip() ? 1 : 2 + r.below(3); std::vector<std::unique_ptr<ModuleWorld>> w; for (size_t i = 0; i < nt; i++) w.emplace_back(new ModuleWorld(r.fork(), dir + "/" + std::to_string(i), "/vfmod" + std::to_string(i), nt == 1)); for (auto &x : w) mkdir(x->dir.c_str(), 0700);
    std::vector<std::thread> ts; for (size_t i = 0; i < nt; i++) { auto x = w[i].get(); auto go = [x] { const size_t n = 10 + x->r.below(30); for (size_t k = 0; k < n; k++) { x->step(); x->check("after a step"); } x->finish(); }; if (nt == 1) go(); else ts.emplace_back(go); } for (auto &t : ts) t.join(); if (nt > 1) count("concurrent_module_worlds", nt);
    //the last copies of a module released in several threads at once
    for (int k = 0; k < 6; k++)
    {
        const std::string f = w[0]->dir + "/shared.so"; copyFile(w[0]->src, f); g_onLoad = [] { PluginRegistry::add(Plugin("/vfmodshared/p", Object(1))); }; std::vector<PluginModule> ms(1, PluginModule(f)); g_onLoad = nullptr;
        const size_t nc = 2 + r.below(3); std::vector<std::unique_ptr<PluginModule>> cs; for (size_t i = 0; i < nc; i++) cs.emplace_back(new PluginModule(ms[0])); ms.clear(); VF_CHECK(PluginRegistry::exists("/vfmodshared/p"), "module-plugin-missing", "shared");
        std::atomic<unsigned> at{0}; const unsigned by = unsigned(r.below(5)), all = unsigned(nc) + (by != 0); std::vector<std::thread> q; for (size_t i = 0; i < nc; i++) q.emplace_back([&, i] { at++; while (at < all) {} cs[i].reset(); });
        //while something else looks at the plugin
        if (by) q.emplace_back([&] { at++; while (at < all) {} for (int j = 0; j < 20; j++) try { switch (by) { case 1: PluginRegistry::remove("/vfmodshared/p"); break; case 2: PluginRegistry::get("/vfmodshared/p").toString(); break; case 3: PluginRegistry::dump(); break; default: PluginRegistry::add(Plugin("/vfmodshared/p", Object(2))); PluginRegistry::remove("/vfmodshared/p"); } } catch (const Exception &) {} });
        for (auto &t : q) t.join(); VF_CHECK(!PluginRegistry::exists("/vfmodshared/p"), "module-plugin-left", "after " << nc << " copies were released at once"); if (PluginRegistry::exists("/vfmodshared/p")) PluginRegistry::remove("/vfmodshared/p"); unlink(f.c_str()); count("shared_releases"); progress();
    }
    std::string sig; for (auto &x : w) sig += x->sig + "|"; distinct(sig); if (c == 0) sample("module history " + sig.substr(0, 120));
    for (auto &x : w) { for (unsigned k = 0; k < x->files; k++) { unlink((x->dir + "/m" + std::to_string(k) + ".so").c_str()); unlink((x->dir + "/bad" + std::to_string(k) + ".so").c_str()); } rmdir(x->dir.c_str()); } rmdir(dir.c_str());
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"paths", pathCase}, {"seq", seqCase}, {"types", typesCase}, {"mt", mtCase}, {"churn", churnCase}, {"modules", modulesCase}}); }
