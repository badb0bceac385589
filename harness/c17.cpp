// C17: managed classes and local proxies behave like direct C++ use
#include "vfp.hpp"
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <memory>
using namespace vf; using namespace Pothos;

static std::atomic<int> alive{0};
struct Tracked { bool dead = false; Tracked(void) { alive++; } Tracked(const Tracked &) { alive++; } Tracked &operator=(const Tracked &) { return *this; } ~Tracked(void) { if (dead) violation("destroyed-twice", ""); dead = true; alive--; } };
struct Named { Tracked t; std::string name = "none"; virtual ~Named(void) {} void setName(const std::string &s) { name = s; } std::string getName(void) const { return name; } virtual int kind(void) const { return 1; } void same(int) { name += "N"; } };
struct Counter { int n = 0; virtual ~Counter(void) {} int add(int x) { n += x; return n; } int total(void) const { return n; } int scale(double f) { n = int(n * f) % 1000; return n; } void addTwo(int a, int b) { n += a * 3 + b; } };
struct Widget : public Named, public Counter
{
    int count = 0; std::string label; std::vector<int> data; double ratio = 0; std::string ctor;
    Widget(void) : ctor("0") {} Widget(const int c) : count(c), ctor("i") { if (c == 13) throw RuntimeException("unlucky"); } Widget(const std::string &s, const int c) : count(c), label(s), ctor("si") {} Widget(const std::vector<int> &v, const int c) : count(c), data(v), ctor("vi") {} Widget(const double a, const double b, const double c) : ratio(a + b * 10 + c * 100), ctor("ddd") {}
    int kind(void) const override { return 2; }
    std::string set(const int v) { count = v; return "i"; }
    std::string set2(const std::string &v) { label = v; return "s"; }
    std::string set3(const double a, const int b) { ratio = a; count = b; return "di"; }
    std::string set4(const std::string &a, const int b) { label = a; count = b; return "si"; }
    std::string set5(const std::vector<int> &v) { data = v; return "v"; }
    std::string set6(const unsigned char v) { count = v + 1000; return "c"; }
    Widget &self(void) { return *this; } Widget copyOf(void) const { return *this; }
    int absorb(const Widget &o) { count = (count + o.count) % 100000; label = (label + o.label).substr(0, 40); return count; }
    void absorbRef(Widget &o) { std::swap(count, o.count); }
    void fail(const std::string &m) { throw NotFoundException(m); } int failStd(int v) { if (v > 0) throw std::runtime_error("std " + std::to_string(v)); return v; } void failAny(void) { throw 5; }
    ObjectVector echo(const ObjectVector &v) { return v; } Object echoObj(const Object &o) { return o; } Proxy echoProxy(const Proxy &p) { return p; }
    static int sadd(int a, int b) { return int((unsigned)a + (unsigned)b); } static std::string sadd2(const std::string &a, const std::string &b) { return a + b; } static int sadd4(const std::vector<int> &a, int b) { return int(a.size()) * 1000 + b; } static double sadd3(double a, double b, double c) { return a + b + c; }
};
struct Deep : public Widget { int depth; Deep(const int d, const int c) : Widget(c), depth(d) {} int getDepth(void) { return depth; } int kind(void) const override { return 3; } void setDepth(const int d) { depth = d; } };

struct Seen { std::string name; ObjectVector args; const void *self; };
static thread_local std::vector<Seen> seen;
struct Opq { Tracked t; ObjectVector ctor; int reg = 0; Opq(const Object *a, const size_t n) : ctor(a, a + n) {} Object any(const Object *a, const size_t n) { seen.push_back(Seen{"any", ObjectVector(a, a + n), this}); return n ? a[n - 1] : Object(); } std::string anyInt(int x) { reg = x; return "int"; } static Object sany(const Object *a, const size_t n) { seen.push_back(Seen{"sany", ObjectVector(a, a + n), nullptr}); return Object(int(n)); } };
struct Wild : public Named { int own = 0; Object wild(const std::string &name, const Object *a, const size_t n) { seen.push_back(Seen{name, ObjectVector(a, a + n), this}); return Object(name); } int mine(int x) { own = x; return x + 1; } static Object swild(const std::string &name, const Object *a, const size_t n) { seen.push_back(Seen{"s" + name, ObjectVector(a, a + n), nullptr}); return n ? a[0] : Object(); } static int sown(int x) { return x * 3; } };

static void reg(void)
{
    ManagedClass().registerClass<Named>().registerMethod("setName", &Named::setName).registerMethod("getName", &Named::getName).registerMethod("kind", &Named::kind).registerMethod("same", &Named::same).commit("vf/Named");
    ManagedClass().registerClass<Counter>().registerMethod("add", &Counter::add).registerMethod("add", &Counter::addTwo).registerMethod("total", &Counter::total).registerMethod("scale", &Counter::scale).registerField("n", &Counter::n).commit("vf/Counter");
    ManagedClass().registerConstructor<Widget>().registerConstructor<Widget, const int>().registerConstructor<Widget, const std::string &, const int>().registerConstructor<Widget, const std::vector<int> &, const int>().registerConstructor<Widget, const double, const double, const double>()
        .registerBaseClass<Widget, Named>().registerBaseClass<Widget, Counter>()
        .registerMethod("set", &Widget::set).registerMethod("set", &Widget::set2).registerMethod("set", &Widget::set3).registerMethod("set", &Widget::set4).registerMethod("set", &Widget::set5)
        .registerMethod("small", &Widget::set6).registerMethod("self", &Widget::self).registerMethod("copyOf", &Widget::copyOf).registerMethod("absorb", &Widget::absorb).registerMethod("absorbRef", &Widget::absorbRef)
        .registerMethod("fail", &Widget::fail).registerMethod("failStd", &Widget::failStd).registerMethod("failAny", &Widget::failAny).registerMethod("echo", &Widget::echo).registerMethod("echoObj", &Widget::echoObj).registerMethod("echoProxy", &Widget::echoProxy)
        .registerField("count", &Widget::count).registerField("label", &Widget::label).registerField("data", &Widget::data).registerField("ratio", &Widget::ratio)
        .registerStaticMethod("sadd", &Widget::sadd).registerStaticMethod("sadd", &Widget::sadd2).registerStaticMethod("sadd", &Widget::sadd3).registerStaticMethod("sadd", &Widget::sadd4).commit("vf/Widget");
    ManagedClass().registerConstructor<Deep, const int, const int>().registerBaseClass<Deep, Widget>().registerMethod("getDepth", &Deep::getDepth).registerField("depth", &Deep::depth).registerMethod("set", &Deep::setDepth).commit("vf/Deep");
    ManagedClass().registerOpaqueConstructor<Opq>().registerOpaqueMethod("any", Callable(&Opq::any)).registerMethod("any", &Opq::anyInt).registerOpaqueStaticMethod("sany", Callable(&Opq::sany)).registerField("reg", &Opq::reg).commit("vf/Opq");
    ManagedClass().registerConstructor<Wild>().registerBaseClass<Wild, Named>().registerWildcardMethod(Callable(&Wild::wild)).registerMethod("mine", &Wild::mine).registerWildcardStaticMethod(Callable(&Wild::swild)).registerStaticMethod("sown", &Wild::sown).commit("vf/Wild");
}

static Widget *widgetOf(const Object &o)
{
    if (o.type() == typeid(Widget)) return const_cast<Widget *>(&o.extract<Widget>()); if (o.type() == typeid(Widget *)) return o.extract<Widget *>(); if (o.type() == typeid(std::shared_ptr<Widget>)) return o.extract<std::shared_ptr<Widget>>().get();
    if (o.type() == typeid(Deep)) return const_cast<Deep *>(&o.extract<Deep>()); if (o.type() == typeid(Deep *)) return o.extract<Deep *>(); if (o.type() == typeid(std::shared_ptr<Deep>)) return o.extract<std::shared_ptr<Deep>>().get(); return nullptr;
}
static bool same(const Widget &a, const Widget &b)
{
    if (a.name != b.name || a.n != b.n || a.count != b.count || a.label != b.label || a.data != b.data || memcmp(&a.ratio, &b.ratio, 8) || a.ctor != b.ctor || a.kind() != b.kind()) return false;
    auto *x = dynamic_cast<const Deep *>(&a), *y = dynamic_cast<const Deep *>(&b); return !x == !y && (!x || x->depth == y->depth);
}
static std::string show(const Widget &w) { std::ostringstream o; o << "{" << w.name << "," << w.n << "," << w.count << "," << w.label << "," << w.data.size() << "," << w.ratio << "," << w.ctor << "}"; return o.str(); }
struct Slot { Proxy p; std::shared_ptr<Widget> twin; std::shared_ptr<int> owners; int how; bool deep; }; //how: 0 value 1 new 2 shared
static Proxy pcall(const Proxy &p, const std::string &name, const ObjectVector &args, ProxyEnvironment::Sptr env)
{
    std::vector<Proxy> ps; for (auto &a : args) ps.push_back(env->convertObjectToProxy(a)); return p.getHandle()->call(name, ps.data(), ps.size());
}
template <typename R, typename... A> static R pc(const Proxy &p, const std::string &name, A &&... a) { return p.call(name, std::forward<A>(a)...).template convert<R>(); }
struct Over { std::vector<const std::type_info *> types; std::function<Object(Widget &, const ObjectVector &)> direct; };
#define T_(x) &typeid(x)
static const std::vector<Over> &overloads(const std::string &name)
{
    static const std::map<std::string, std::vector<Over>> m = {
        {"set", {{{T_(int)}, [](Widget &w, const ObjectVector &a) { return Object(w.set(a[0].extract<int>())); }}, {{T_(std::string)}, [](Widget &w, const ObjectVector &a) { return Object(w.set2(a[0].extract<std::string>())); }}, {{T_(double), T_(int)}, [](Widget &w, const ObjectVector &a) { return Object(w.set3(a[0].extract<double>(), a[1].extract<int>())); }},
                 {{T_(std::string), T_(int)}, [](Widget &w, const ObjectVector &a) { return Object(w.set4(a[0].extract<std::string>(), a[1].extract<int>())); }}, {{T_(std::vector<int>)}, [](Widget &w, const ObjectVector &a) { return Object(w.set5(a[0].extract<std::vector<int>>())); }}}},
        {"small", {{{T_(unsigned char)}, [](Widget &w, const ObjectVector &a) { return Object(w.set6(a[0].extract<unsigned char>())); }}}},
        {"setName", {{{T_(std::string)}, [](Widget &w, const ObjectVector &a) { w.setName(a[0].extract<std::string>()); return Object(); }}}}, {"getName", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.getName()); }}}},
        {"kind", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.kind()); }}}}, {"total", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.total()); }}}},
        {"add", {{{T_(int)}, [](Widget &w, const ObjectVector &a) { return Object(w.add(a[0].extract<int>())); }}, {{T_(int), T_(int)}, [](Widget &w, const ObjectVector &a) { w.addTwo(a[0].extract<int>(), a[1].extract<int>()); return Object(); }}}},
        {"scale", {{{T_(double)}, [](Widget &w, const ObjectVector &a) { return Object(w.scale(a[0].extract<double>())); }}}},
        {"set:n", {{{T_(int)}, [](Widget &w, const ObjectVector &a) { w.n = a[0].extract<int>(); return Object(); }}}}, {"get:n", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.n); }}}},
        {"set:count", {{{T_(int)}, [](Widget &w, const ObjectVector &a) { w.count = a[0].extract<int>(); return Object(); }}}}, {"get:count", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.count); }}}},
        {"set:label", {{{T_(std::string)}, [](Widget &w, const ObjectVector &a) { w.label = a[0].extract<std::string>(); return Object(); }}}}, {"get:label", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.label); }}}},
        {"set:data", {{{T_(std::vector<int>)}, [](Widget &w, const ObjectVector &a) { w.data = a[0].extract<std::vector<int>>(); return Object(); }}}}, {"get:data", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.data); }}}},
        {"set:ratio", {{{T_(double)}, [](Widget &w, const ObjectVector &a) { w.ratio = a[0].extract<double>(); return Object(); }}}}, {"get:ratio", {{{}, [](Widget &w, const ObjectVector &) { return Object(w.ratio); }}}},
        {"nothing", {}}, {"get:nothing", {}}, {"()", {}}, {"sadd", {}}};
    static const std::vector<Over> none; auto it = m.find(name); return it == m.end() ? none : it->second;
}
static const std::vector<std::string> methodNames{"set", "set", "set", "set", "small", "setName", "getName", "kind", "total", "add", "add", "scale", "set:n", "get:n", "set:count", "get:count", "set:label", "get:label", "set:data", "get:data", "set:ratio", "get:ratio", "nothing", "get:nothing", "()", "sadd"};
static Object argOf(Rng &r, const std::type_info *t)
{
    if (t && r.chance(4, 5))
    {
        if (*t == typeid(int)) { switch (r.below(4)) { case 0: return Object(short(r.range(-99, 99))); case 1: return Object((long long)r.range(-999, 999)); default: return Object(int(r.range(-9999, 9999))); } }
        if (*t == typeid(double)) return r.flip() ? Object(double(r.range(-800, 800)) / 8) : Object(int(r.range(-8, 8)));
        if (*t == typeid(std::string)) return Object(randString(r, 10)); if (*t == typeid(std::vector<int>)) return Object(randVec<int>(r, interestingInt<int>)); if (*t == typeid(unsigned char)) return Object(int(r.range(-5, 300)));
    }
    switch (r.below(6)) { case 0: return Object(randString(r, 6)); case 1: return Object(long(r.range(-99, 99))); case 2: return Object(1e30); case 3: return Object(std::vector<int>(2, 1)); case 4: return Object(interestingInt<long long>(r)); default: return Object(); }
}
static ObjectVector argsFor(Rng &r, const std::vector<Over> &ov)
{
    ObjectVector a; if (ov.empty()) { for (size_t n = r.below(3); n > 0; n--) a.push_back(argOf(r, nullptr)); return a; }
    for (auto *t : ov[r.below(ov.size())].types) a.push_back(argOf(r, t)); if (r.chance(1, 12)) a.push_back(Object(1)); if (!a.empty() && r.chance(1, 16)) a.pop_back(); return a;
}
//! the overload that must run (last registered that fits), or null; args converted; bad when the conversion of a value fails
static const Over *choose(const std::vector<Over> &ov, const ObjectVector &args, ObjectVector &conv, bool &bad)
{
    const Over *w = nullptr; for (auto &o : ov) { if (o.types.size() != args.size()) continue; bool ok = true; for (size_t i = 0; i < args.size(); i++) if (!args[i].canConvert(*o.types[i])) ok = false; if (ok) w = &o; }
    bad = false; if (w) for (size_t i = 0; i < args.size() && !bad; i++) if (caught([&]{ conv.push_back(args[i].convert(*w->types[i])); }) != "") bad = true; return w;
}

static void instCase(Rng &r, uint64_t c)
{
    const int base = alive; std::string sig;
    {
    auto env = ProxyEnvironment::make("managed"), env2 = ProxyEnvironment::make("managed"); Proxy cls = env->findProxy("vf/Widget"), dcls = env->findProxy("vf/Deep"); std::vector<Slot> s;
    auto expectAlive = [&](const char *op) { std::set<const void *> u; for (auto &x : s) u.insert(x.twin.get()); const int want = int(u.size()) * 2; VF_CHECK(alive - base == want, alive - base > want ? "instance-not-destroyed" : "instance-destroyed-early", "after " << op << ": " << alive - base << " alive, expected " << want << "; " << sig); };
    for (size_t n = 10 + r.below(40); n > 0; n--)
    {
        const unsigned op = s.empty() ? 0 : unsigned(r.below(12));
        if (op == 0 && s.size() < 6)
        {
            const int how = int(r.below(3)); const bool deep = r.chance(1, 4); const std::string m = how == 0 ? "()" : how == 1 ? "new" : "shared"; ObjectVector args; std::shared_ptr<Widget> twin; bool bad = false; const int ci = r.chance(1, 12) ? 13 : int(r.range(-99, 99)); const std::string cs = randString(r, 8); std::string want;
            if (deep) { args = {Object(int(ci + 1)), Object(ci)}; try { twin.reset(new Deep(ci + 1, ci)); } catch (const Exception &e) { want = e.displayText(); } }
            else switch (r.below(7))
            {
            case 6: { const auto v = randVec<int>(r, interestingInt<int>); args = {Object(v), Object(ci)}; twin.reset(new Widget(v, ci)); } break;
            case 0: twin.reset(new Widget()); break; case 1: args = {r.flip() ? Object(ci) : Object(long(ci))}; try { twin.reset(new Widget(ci)); } catch (const Exception &e) { want = e.displayText(); } break;
            case 2: args = {Object(cs), Object(ci)}; twin.reset(new Widget(cs, ci)); break; case 3: args = {Object(1.5), Object(2), Object(3.0f)}; twin.reset(new Widget(1.5, 2, 3)); break;
            case 4: args = {Object(1), Object(cs)}; bad = true; break; default: args = {Object(1.0), Object(1), Object(1), Object(1)}; bad = true;
            }
            Proxy p; const auto err = caught([&]{ p = pcall(deep ? dcls : cls, m, args, env); }); sig += "c" + m;
            if (bad || !want.empty()) { VF_CHECK(!err.empty(), "bad-construction-accepted", m << " " << args.size()); if (!want.empty()) VF_CHECK(err.find(want) != std::string::npos, "exception-message", err << " for " << want); count("refused_constructions"); }
            else
            {
                VF_CHECK(err.empty(), "construction-refused", err); if (!err.empty()) continue;
                Object o = p.toObject(); VF_CHECK(o.type() == (deep ? how == 0 ? typeid(Deep) : how == 1 ? typeid(Deep *) : typeid(std::shared_ptr<Deep>) : how == 0 ? typeid(Widget) : how == 1 ? typeid(Widget *) : typeid(std::shared_ptr<Widget>)), "constructed-type", o.getTypeString());
                s.push_back(Slot{p, twin, std::make_shared<int>(0), how, deep}); count("constructed");
            }
        }
        else if (op == 1 && s.size() < 8) { sig += "k"; s.push_back(s[r.below(s.size())]); count("references"); }
        else if (op == 2)
        {
            const size_t i = r.below(s.size()); Slot x = s[i]; s.erase(s.begin() + i); bool last = true; for (auto &y : s) if (y.twin == x.twin) last = false; sig += "d";
            if (x.how == 1) { if (last) { x.p.call("delete"); count("deletes"); } }
        }
        else if (op == 3)
        {
            Slot &a = s[r.below(s.size())], &b = s[r.below(s.size())]; if (a.deep || b.deep || b.how != 0) continue; sig += "a"; const bool other = r.flip(); Proxy bp = b.p; if (other) bp = env2->convertObjectToProxy(b.p.toObject());
            if (r.flip()) { const int want = a.twin->absorb(*b.twin); const int got = pc<int>(a.p, "absorb", bp); VF_CHECK(got == want, "wrong-result", "absorb " << got << " " << want); }
            else { a.p.call("absorbRef", bp); a.twin->absorbRef(*b.twin); }
            count("proxy_arguments"); if (other) count("foreign_proxies");
        }
        else if (op == 4)
        {
            Slot &a = s[r.below(s.size())]; sig += "r"; Proxy me = a.p.call("self"); const int v = int(r.range(-999, 999)); me.set("count", v); a.twin->count = v; Object mo = me.toObject(); VF_CHECK(widgetOf(mo) == widgetOf(a.p.toObject()), "reference-result", "another instance");
            if (!a.deep) { Proxy cp = a.p.call("copyOf"); VF_CHECK(alive - base == [&]{ std::set<const void *> u; for (auto &x : s) u.insert(x.twin.get()); return int(u.size()) * 2 + 1; }(), "instance-count", "copy"); VF_CHECK(same(*widgetOf(cp.toObject()), *a.twin), "wrong-result", "copy differs"); cp.set("count", v + 1); VF_CHECK(a.p.get<int>("count") == v, "copy-not-independent", ""); }
            count("reference_results");
        }
        else if (op == 5)
        {
            Slot &a = s[r.below(s.size())]; const std::string msg = "m" + randString(r, 8); sig += "x"; std::string err; const int k = int(r.below(3));
            try { if (k == 0) a.p.call("fail", msg); if (k == 1) a.p.call("failStd", 42); if (k == 2) a.p.call("failAny"); violation("exception-not-propagated", std::to_string(k)); } catch (const ProxyExceptionMessage &e) { err = e.displayText(); }
            VF_CHECK(err.find(k == 0 ? msg : k == 1 ? std::string("std 42") : std::string()) != std::string::npos, "exception-message", err); VF_CHECK(pc<int>(a.p, "failStd", -7) == -7, "wrong-result", "failStd"); count("thrown");
        }
        else if (op == 6)
        {
            sig += "s"; const int x = interestingInt<int>(r), y = interestingInt<int>(r); const std::string u = randString(r, 9), v = randString(r, 9);
            VF_CHECK(pc<int>(cls, "sadd", x, y) == Widget::sadd(x, y), "wrong-result", "static"); VF_CHECK(pc<std::string>(cls, "sadd", u, v) == u + v, "wrong-result", "static"); { const auto w = randVec<int>(r, interestingInt<int>); const int z = int(r.range(-99, 99)); VF_CHECK(pc<int>(cls, "sadd", w, z) == Widget::sadd4(w, z), "wrong-result", "static"); } VF_CHECK(pc<double>(cls, "sadd", 1, 2.5f, (unsigned char)3) == 6.5, "wrong-result", "static");
            for (int k = 0; k < 4; k++) { const auto err = caught([&]{ if (k == 0) cls.call("sadd", u, 1); if (k == 1) cls.call("sadd"); if (k == 2) cls.call("set", 1); if (k == 3) cls.call("sadd", 1e30, 1); }); VF_CHECK(!err.empty(), "bad-arguments-accepted", "static " << k); } count("static_calls", 3);
            VF_CHECK(caught([&]{ env->findProxy("vf/Absent"); }) != "", "unknown-class-found", ""); VF_CHECK(caught([&]{ env->findProxy("../managed"); }) != "", "unknown-class-found", "");
        }
        else if (op == 7)
        {
            Slot &a = s[r.below(s.size())]; sig += "e"; ObjectVector v; for (size_t k = r.below(5); k > 0; k--) v.push_back(randObject(r, 2)); if (a.deep) continue;
            VF_CHECK(vecEq(pc<ObjectVector>(a.p, "echo", v), v), "echo", Object(v).toString()); const Object o = randObject(r, 2); Object back = pcall(a.p, "echoObj", {o}, env).toObject(); if (back.type() == typeid(Object)) back = back.extract<Object>(); VF_CHECK(deepEq(back, o), "echo", o.getTypeString() << " became " << back.getTypeString());
            VF_CHECK(pcall(a.p, "echoProxy", {Object(s[0].p)}, env).toObject() == s[0].p.toObject(), "echo", "proxy argument"); count("echoes");
        }
        else
        {
            Slot &a = s[r.below(s.size())]; const auto &name = r.pick(methodNames); const auto &ov = overloads(name); const auto args = argsFor(r, ov); ObjectVector conv; bool bad; const Over *w;
            if (a.deep && name == "set" && args.size() == 1 && args[0].canConvert(typeid(int))) { //hidden by the derived class's own
                auto *d = static_cast<Deep *>(a.twin.get()); const auto err = caught([&]{ pcall(a.p, "set", args, env); }); if (caught([&]{ const int v = args[0].convert<int>(); d->setDepth(v); }) != "") VF_CHECK(!err.empty(), "bad-arguments-accepted", name); else VF_CHECK(err.empty(), "good-arguments-refused", err); count("derived_methods"); }
            else
            {
                w = choose(ov, args, conv, bad); sig += "m" + name; Object got; const auto err = caught([&]{ got = pcall(a.p, name, args, env).toObject(); });
                if (!w || bad) { VF_CHECK(!err.empty(), "bad-arguments-accepted", name << " " << Object(args).toString()); count("refused_calls"); }
                else { VF_CHECK(err.empty(), "good-arguments-refused", name << ": " << err); if (!err.empty()) continue; const Object want = w->direct(*a.twin, conv); VF_CHECK(deepEq(got, want), "wrong-result", name << " gave " << got.toString() << " not " << want.toString() << " for " << Object(args).toString()); count(a.deep ? "inherited_calls" : "calls"); }
            }
        }
        for (auto &x : s) { Widget *w = widgetOf(x.p.toObject()); if (!w) { violation("held-type", x.p.getClassName()); continue; } VF_CHECK(same(*w, *x.twin), "state-differs", show(*w) << " for " << show(*x.twin) << " " << sig); }
        expectAlive("step");
    }
    for (size_t i = 0; i < s.size(); i++) if (s[i].how == 1) { bool later = false; for (size_t j = i + 1; j < s.size(); j++) if (s[j].twin == s[i].twin) later = true; if (!later) s[i].p.call("delete"); }
    }
    VF_CHECK(alive == base, "instance-not-destroyed", alive - base << " left; " << sig); if (c < 2) sample(sig); distinct(sig);
}

static void opaqueCase(Rng &r, uint64_t c)
{
    const int base = alive; std::string sig;
    {
    auto env = ProxyEnvironment::make("managed"); Proxy oc = env->findProxy("vf/Opq"), wc = env->findProxy("vf/Wild");
    auto some = [&]{ ObjectVector a; for (size_t n = r.below(6); n > 0; n--) a.push_back(randObject(r, 2)); return a; };
    const auto ca = some(); Proxy o = pcall(oc, "()", ca, env); VF_CHECK(vecEq(o.toObject().extract<Opq>().ctor, ca), "opaque-constructor-arguments", ""); Proxy w = wc.call("()"); const void *op = &o.toObject().extract<Opq>(), *wp = &w.toObject().extract<Wild>(); Wild *ww = const_cast<Wild *>(&w.toObject().extract<Wild>());
    for (size_t n = 5 + r.below(20); n > 0; n--)
    {
        const auto a = some(); seen.clear(); const int k = int(r.below(7)); sig += std::to_string(k) + std::to_string(a.size());
        if (k == 0) { const bool direct = a.size() == 1 && a[0].canConvert(typeid(int)); Object got; const auto err = caught([&]{ got = pcall(o, "any", a, env).toObject(); }); if (direct) { VF_CHECK(seen.empty(), "opaque-before-method", ""); if (err.empty()) VF_CHECK(deepEq(got, Object(std::string("int"))), "wrong-result", got.toString()); } else { VF_CHECK(err.empty() && seen.size() == 1, "opaque-not-called", err); if (seen.size() == 1) { VF_CHECK(vecEq(seen[0].args, a) && seen[0].self == op, "opaque-arguments", Object(a).toString()); VF_CHECK(deepEq(got, a.empty() ? Object() : a.back()), "wrong-result", "opaque " << got.toString()); } } count("opaque_calls"); }
        if (k == 1) { Object got = pcall(oc, "sany", a, env).toObject(); VF_CHECK(seen.size() == 1 && vecEq(seen[0].args, a) && deepEq(got, Object(int(a.size()))), "opaque-arguments", "static"); count("opaque_calls"); }
        if (k == 2) { const std::string name = r.flip() ? "x" + randString(r, 6) : "unknownThing"; Object got = pcall(w, name, a, env).toObject(); VF_CHECK(seen.size() == 1 && seen[0].name == name && vecEq(seen[0].args, a) && seen[0].self == wp, "wildcard-arguments", name << " " << seen.size()); VF_CHECK(deepEq(got, Object(name)), "wrong-result", "wildcard"); count("wildcard_calls"); }
        if (k == 3) { Object got = pcall(wc, "sx", a, env).toObject(); VF_CHECK(seen.size() == 1 && seen[0].name == "ssx" && vecEq(seen[0].args, a), "wildcard-arguments", "static"); VF_CHECK(deepEq(got, a.empty() ? Object() : a[0]), "wrong-result", "wildcard"); count("wildcard_calls"); }
        if (k == 4) { const int v = int(r.range(-99, 99)); VF_CHECK(pc<int>(w, "mine", v) == v + 1 && ww->own == v && seen.empty(), "wildcard-shadows-method", ""); VF_CHECK(pc<int>(wc, "sown", v) == v * 3 && seen.empty(), "wildcard-shadows-method", "static"); count("calls"); }
        if (k == 5) { const auto nm = randString(r, 7); w.call("setName", nm); VF_CHECK(ww->name == nm && pc<std::string>(w, "getName") == nm && seen.empty(), "wildcard-shadows-base", ""); count("inherited_calls"); }
        if (k == 6) { o.set("reg", 4); VF_CHECK(o.get<int>("reg") == 4, "wrong-result", "field"); VF_CHECK(caught([&]{ o.call("unknown"); }) != "", "bad-arguments-accepted", "unknown"); VF_CHECK(caught([&]{ oc.call("unknown"); }) != "", "bad-arguments-accepted", "unknown"); count("refused_calls"); }
    }
    }
    VF_CHECK(alive == base, "instance-not-destroyed", alive - base); if (c < 1) sample("opaque/wildcard " + sig); distinct(sig);
}

//! values into the environment and back, directly, through containers of proxies and serialized
static void valueCase(Rng &r, uint64_t c)
{
    auto env = ProxyEnvironment::make("managed"), env2 = ProxyEnvironment::make("managed"); std::string sig;
    for (int k = 0; k < 12; k++)
    {
        const Object o = randObject(r, 3); sig += o.getTypeString() + ";"; Proxy p = env->convertObjectToProxy(o); VF_CHECK(p.getEnvironment() == env, "environment", ""); VF_CHECK(deepEq(p.toObject(), o) && deepEq(env->convertProxyToObject(p), o) && deepEq(env2->convertProxyToObject(p), o), "value-changed", o.getTypeString()); VF_CHECK(p.getClassName() == o.getTypeString() && p.toString() == o.toString(), "proxy-description", p.toString());
        if (o) { std::stringstream ss; Object(p).serialize(ss); Object b; b.deserialize(ss); VF_CHECK(b.type() == typeid(Proxy) && deepEq(b.extract<Proxy>().toObject(), o), "serialized-value-changed", o.getTypeString()); }
        count("values");
    }
    ObjectVector v; ProxyVector pv; for (size_t n = r.below(7); n > 0; n--) { v.push_back(randObject(r, 2)); pv.push_back(env->convertObjectToProxy(v.back())); }
    Proxy pvp = env->makeProxy(pv); VF_CHECK(vecEq(pvp.convert<ObjectVector>(), v), "container-changed", "vector"); ProxyVector pv2 = env->makeProxy(v).convert<ProxyVector>(); VF_CHECK(pv2.size() == v.size(), "container-changed", "size"); for (size_t i = 0; i < v.size() && i < pv2.size(); i++) VF_CHECK(deepEq(pv2[i].toObject(), v[i]), "container-changed", i);
    ProxyMap pm; ObjectMap om; for (size_t n = r.below(7); n > 0; n--) { Object kx = randKey(r, unsigned(r.below(3))), vx = randObject(r, 2); if (om.count(kx)) continue; om[kx] = vx; pm[env->convertObjectToProxy(kx)] = env->convertObjectToProxy(vx); } VF_CHECK(pm.size() == om.size(), "container-changed", "map keys"); VF_CHECK(deepEq(Object(env->makeProxy(pm).convert<ObjectMap>()), Object(om)), "container-changed", "map");
    //comparison and identity
    const int x = int(r.range(-5, 5)), y = int(r.range(-5, 5)); Proxy px = env->makeProxy(x), py = env2->makeProxy(y); const int cmp = px.compareTo(py); VF_CHECK((cmp < 0) == (x < y) && (cmp > 0) == (x > y), "comparison", x << "," << y); VF_CHECK(env->makeProxy(x).hashCode() == px.hashCode(), "hash", x); VF_CHECK(px == px && px != env->makeProxy(x), "identity", "");
    try { px.compareTo(env->makeProxy(std::string("a"))); violation("incomparable-accepted", ""); } catch (const ProxyCompareError &) {} count("containers"); if (c < 1) sample(sig); distinct(sig);
}

static void mtCase(Rng &r, uint64_t c)
{
    const int base = alive; const unsigned nt = 2 + unsigned(r.below(4)); std::atomic<int> bad{0}; std::atomic<uint64_t> n{0};
    { auto env = ProxyEnvironment::make("managed"); Proxy cls = env->findProxy("vf/Widget"); Proxy shared = cls.call("()", std::string("abc"), 77); std::vector<std::thread> ts; const bool churn = r.flip();
    for (unsigned t = 0; t < nt; t++) ts.emplace_back([&, t]{ Rng q(c * 131 + t); auto mine = q.flip() ? env : ProxyEnvironment::make("managed"); for (int k = 0; k < 40; k++) { Proxy p = mine->findProxy("vf/Widget").call(q.flip() ? "()" : "shared", int(k + 20)); p.call("setName", "t" + std::to_string(t)); if (pc<std::string>(p, "getName") != "t" + std::to_string(t)) bad++; if (p.get<int>("count") != k + 20) bad++; if (pc<int>(shared, "total") != 0 || shared.get<std::string>("label") != "abc") bad++; Proxy copy = shared; if (pc<int>(p, "absorb", copy) != k + 97) bad++; n += 5;
        if (churn && t == 0 && k % 8 == 0) { const std::string path = "vf/Tmp"; ManagedClass().registerConstructor<Opq, const Object *, const size_t>().commit(path); ManagedClass::unload(path); } } });
    for (auto &t : ts) t.join(); }
    VF_CHECK(bad == 0, "concurrent-wrong-result", bad); VF_CHECK(alive == base, "instance-not-destroyed", alive - base); count("concurrent_calls", n); distinct(nt); if (c == 0) sample(std::to_string(nt) + " threads over one environment");
}
int main(int argc, char **argv) { initLib(); reg(); return run(argc, argv, {{"inst", instCase}, {"opaque", opaqueCase}, {"values", valueCase}, {"mt", mtCase}}); }
