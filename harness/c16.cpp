// C16: callables invoke exactly the bound target with exactly the given arguments
#include "vfp.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Proxy.hpp>
#include <memory>
using namespace vf; using namespace Pothos;

struct Boom { int id; };
struct Rec { int id; const void *self; ObjectVector args; };
static std::vector<Rec> recs; static bool throwNext = false; static uint64_t retSeed = 0;

template <typename T> struct Mk { static T make(Rng &r) { return T(interestingInt<T>(r)); } };
template <> struct Mk<double> { static double make(Rng &r) { return interestingFloat<double>(r); } };
template <> struct Mk<float> { static float make(Rng &r) { return interestingFloat<float>(r); } };
template <> struct Mk<bool> { static bool make(Rng &r) { return r.flip(); } };
template <> struct Mk<std::string> { static std::string make(Rng &r) { return randString(r); } };
template <> struct Mk<std::complex<double>> { static std::complex<double> make(Rng &r) { return std::complex<double>(r.range(-9, 9), r.range(-9, 9)); } };
template <> struct Mk<std::vector<int>> { static std::vector<int> make(Rng &r) { return randVec<int>(r, interestingInt<int>); } };
template <> struct Mk<Object> { static Object make(Rng &r) { return randScalar(r); } };
template <> struct Mk<void> { static void make(Rng &) {} };
template <typename T> using Bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template <typename R> static R result(void) { Rng r(retSeed); return Mk<R>::make(r); }
template <typename R> struct ResObj { static Object get(void) { return Object::make(result<R>()); } };
template <> struct ResObj<void> { static Object get(void) { return Object(); } };

template <typename... A> static void note(int id, const void *self, const A &... a)
{
    recs.push_back(Rec{id, self, ObjectVector{Object::make(a)...}});
    if (throwNext) { throwNext = false; throw Boom{id}; }
}
template <typename R, typename... A> struct Fn { static R f(A... a) { note(1, nullptr, a...); return result<Bare<R>>(); } };
struct Pad { virtual ~Pad(void) {} int x = 0; };
template <typename R, typename... A> struct Obj : Pad
{
    R m(A... a) { note(2, this, a...); return result<Bare<R>>(); }
    R cm(A... a) const { note(3, this, a...); return result<Bare<R>>(); }
};

//! one callable and everything the model knows of it
struct Entry
{
    Callable call;
    std::vector<const std::type_info *> types; const std::type_info *ret; //bare parameter types, including the instance for methods
    std::vector<std::function<Object(Rng &)>> gen; //value of the parameter's own type
    std::function<Object(void)> expect; int id; bool method; std::shared_ptr<void> keep; const void *self;
    std::vector<Object> bound; std::vector<char> isBound; //per parameter
};
template <typename T> static Object exactArg(Rng &r) { return Object(Mk<T>::make(r)); }
template <typename R, typename... A> static Entry entryOf(int kind)
{
    Entry e; e.method = kind == 1 || kind == 2; e.ret = &typeid(R); e.expect = []{ return ResObj<Bare<R>>::get(); }; e.self = nullptr;
    if (e.method)
    {
        auto o = std::make_shared<Obj<R, A...>>(); e.keep = o; e.self = o.get(); e.id = kind == 1 ? 2 : 3;
        e.call = kind == 1 ? Callable(&Obj<R, A...>::m) : Callable(&Obj<R, A...>::cm);
        e.types.push_back(&typeid(Obj<R, A...>)); e.gen.push_back([o](Rng &) { return Object(std::ref(*o)); });
    }
    else if (kind == 0) { e.id = 1; e.call = Callable(&Fn<R, A...>::f); }
    else { e.id = 4; auto cap = std::make_shared<int>(7); e.keep = cap; e.call = Callable(std::function<R(A...)>([cap](A... a) -> R { if (*cap != 7) violation("captured-state", "function object"); note(4, nullptr, a...); return result<Bare<R>>(); })); }
    const std::vector<const std::type_info *> ts{&typeid(A)...}; e.types.insert(e.types.end(), ts.begin(), ts.end());
    const std::vector<std::function<Object(Rng &)>> gs{exactArg<Bare<A>>...}; e.gen.insert(e.gen.end(), gs.begin(), gs.end());
    e.bound.resize(e.types.size()); e.isBound.resize(e.types.size());
    return e;
}
static Entry randEntry(Rng &r)
{
    const int k = int(r.below(4));
    switch (r.below(13))
    {
    case 0: return entryOf<void>(k);
    case 1: return entryOf<int, int>(k);
    case 2: return entryOf<std::string, std::string>(k);
    case 3: return entryOf<Object, Object>(k);
    case 4: return entryOf<void, int, std::string>(k);
    case 5: return entryOf<double, double, int, long long>(k);
    case 6: return entryOf<std::complex<double>, unsigned char, std::string, std::complex<double>, Object>(k);
    case 7: return entryOf<long long, short, int, long, unsigned, long long, double, std::string>(k);
    case 8: return entryOf<std::vector<int>, const std::string &, const int &, std::vector<int>>(k);
    case 9: return entryOf<unsigned long long, unsigned long long, signed char, unsigned short, float>(k);
    case 10: return entryOf<int, int, int, int, int, int, int, int, int>(k);
    case 11: return entryOf<std::string, Object, std::string, Object, std::string>(k);
    default: return entryOf<void, char, bool, unsigned long, const double &>(k);
    }
}
static Object otherArg(Rng &r) { const auto k = r.below(10); if (k == 0) return Object(); if (k == 1) return Object(Mk<std::vector<int>>::make(r)); if (k == 2) return Object(Boom{1}); if (k < 6) return Object(int(r.range(0, 100))); return randScalar(r); }
static Object argFor(Rng &r, Entry &e, size_t i)
{
    if ((e.method && i == 0) || r.chance(2, 3)) { if (e.method && i == 0 && r.chance(1, 12)) return otherArg(r); return e.gen[i](r); }
    return otherArg(r);
}
static size_t unbound(const Entry &e) { size_t n = 0; for (auto b : e.isBound) n += !b; return n; }

static void checkShape(Entry &e)
{
    VF_CHECK(bool(e.call), "null-state", "");
    VF_CHECK(e.call.getNumArgs() == unbound(e), "argument-count", e.call.getNumArgs() << " reported, " << unbound(e) << " unbound");
    VF_CHECK(e.call.type(-1) == *e.ret, "return-type", e.call.toString());
    int n = 0;
    for (size_t i = 0; i < e.types.size(); i++) if (!e.isBound[i]) { const auto err = caught([&]{ VF_CHECK(e.call.type(n) == *e.types[i], "argument-type", "arg " << n << " of " << e.call.toString()); }); VF_CHECK(err.empty(), "argument-type", err); n++; }
    for (int bad : {n, n + 1, -2}) { try { e.call.type(bad); violation("type-out-of-range-accepted", std::to_string(bad)); } catch (const CallableArgumentError &) {} }
    count("shape_checks");
}
static void doCall(Rng &r, Entry &e)
{
    ObjectVector args; const size_t need = unbound(e);
    const bool few = need > 0 && r.chance(1, 8), many = r.chance(1, 10);
    for (size_t i = 0; i < e.types.size(); i++) if (!e.isBound[i]) args.push_back(argFor(r, e, i));
    if (few) args.resize(r.below(need)); if (many && !few) args.push_back(otherArg(r));
    const ObjectVector sent = args; std::vector<char> wasUnique; 
    //expectation
    ObjectVector expect; bool refused = false, unconvertible = false; size_t a = 0;
    for (size_t i = 0; i < e.types.size() && !refused; i++)
    {
        Object v; if (e.isBound[i]) v = e.bound[i]; else if (a < args.size()) v = args[a++]; else { refused = unconvertible = true; break; }
        try { expect.push_back(v.convert(*e.types[i])); } catch (const ObjectConvertError &) { refused = unconvertible = true; } catch (const Exception &) { refused = true; }
    }
    retSeed = r.next(); const bool thrower = r.chance(1, 8); throwNext = thrower; recs.clear();
    int how = 0; Object ret; std::string text; int boomId = 0;
    try { ret = e.call.opaqueCall(args.data(), args.size()); } catch (const Boom &b) { how = 1; boomId = b.id; } catch (const CallableArgumentError &ex) { how = 2; text = ex.displayText(); } catch (const Exception &ex) { how = 3; text = ex.displayText(); }
    throwNext = false;
    if (refused)
    {
        VF_CHECK(how >= 2, "bad-arguments-accepted", e.call.toString() << " with " << args.size() << " arguments");
        if (unconvertible && !few) VF_CHECK(how == 2, "argument-error-type", text);
        if (few && a >= args.size() && unconvertible) VF_CHECK(how == 2, "argument-error-type", text);
        VF_CHECK(recs.empty(), "target-ran-with-bad-arguments", e.call.toString()); count(few ? "too_few" : "refused_args");
    }
    else
    {
        VF_CHECK(how < 2, "good-arguments-refused", text); if (how >= 2) return;
        VF_CHECK(recs.size() == 1, recs.empty() ? "target-not-called" : "target-called-twice", recs.size() << " calls of " << e.call.toString()); if (recs.size() != 1) return;
        VF_CHECK(recs[0].id == e.id, "wrong-target", recs[0].id << " for " << e.id);
        if (e.method) { VF_CHECK(recs[0].self == e.self, "wrong-instance", e.call.toString()); }
        ObjectVector ex(expect.begin() + (e.method ? 1 : 0), expect.end());
        VF_CHECK(vecEq(recs[0].args, ex), "wrong-arguments", "got " << Object(recs[0].args).toString() << " expected " << Object(ex).toString());
        if (thrower) { VF_CHECK(how == 1 && boomId == e.id, "exception-not-propagated", e.call.toString()); count("thrown"); }
        else { VF_CHECK(how == 0, "spurious-exception", ""); VF_CHECK(deepEq(ret, e.expect()), "wrong-result", "got " << ret.toString() << " expected " << e.expect().toString()); count("calls"); if (many) count("extra_args"); }
    }
    VF_CHECK(vecEq(args, sent), "caller-arguments-changed", ""); for (size_t i = 0; i < args.size(); i++) VF_CHECK(args[i] == sent[i], "caller-arguments-changed", "identity");
}

static void bindCase(Rng &r, uint64_t c)
{
    std::string sig; std::vector<Entry> es; es.push_back(randEntry(r)); if (r.flip()) es.push_back(randEntry(r));
    for (size_t n = 10 + r.below(40); n > 0; n--)
    {
        Entry &e = es[r.below(es.size())]; const size_t np = e.types.size();
        switch (r.below(6))
        {
        case 0: case 1: if (np) { const size_t i = r.below(np); Object v = argFor(r, e, i); if (!v) break; sig += "b" + std::to_string(i); const Object keep = v; Callable &ret = r.flip() ? e.call.bind(v, i) : e.call.bind(std::move(v), i); VF_CHECK(&ret == &e.call, "bind-return", ""); e.bound[i] = keep; e.isBound[i] = 1; count("binds"); } break;
        case 2: if (np) { const size_t i = r.below(np); sig += "u" + std::to_string(i); e.call.unbind(i); e.bound[i] = Object(); e.isBound[i] = 0; count("unbinds"); } break;
        case 3: if (es.size() < 6) { sig += "k"; Entry k = e; if (r.flip()) { Callable t; t = e.call; k.call = t; } VF_CHECK(k.call == e.call, "copy-not-equal", ""); es.push_back(k); count("copies"); } break;
        case 4: if (es.size() > 1 && r.chance(1, 3)) { sig += "d"; const size_t i = r.below(es.size()); es.erase(es.begin() + i); } break;
        case 5: if (r.chance(1, 3)) { sig += "o"; try { e.call.bind(Object(7), np + r.below(3)); } catch (const Exception &) {} count("binds_beyond"); break; } //no such argument: refused or without effect
        default: sig += "c"; doCall(r, e);
        }
        for (auto &x : es) checkShape(x);
        if (r.flip()) doCall(r, es[r.below(es.size())]);
    }
    if (c < 2) sample("bind/unbind/copy/call history " + sig);
    distinct(sig);
}

//! constructors: everything built exactly once and destroyed exactly once
static int alive = 0, built = 0;
struct Made
{
    int a; std::string s; double d; bool dead = false;
    Made(void) : a(-1), d(0) { alive++; built++; }
    Made(int x) : a(x), d(0) { if (x == 66666) throw Boom{9}; alive++; built++; }
    Made(int x, const std::string &y, double z) : a(x), s(y), d(z) { alive++; built++; }
    Made(const Made &o) : a(o.a), s(o.s), d(o.d) { alive++; built++; }
    ~Made(void) { if (dead) violation("destroyed-twice", ""); dead = true; alive--; }
    int field = 5; int &ref(void) { return field; } const int &cref(void) const { return field; }
};
static void bump(int &x, const int by) { x += by; }
static std::string join(const std::string &a, const int b, const double c) { return a + std::to_string(b) + std::to_string(c); }
template <typename F> static void argError(F f, const char *what) { try { f(); violation("bad-arguments-accepted", what); } catch (const CallableArgumentError &) { count("refused_args"); } }

static void factoryCase(Rng &r, uint64_t c)
{
    alive = built = 0;
    const int x = int(r.range(-1000, 1000)); const std::string s = randString(r); const double d = double(r.range(-1000, 1000)) / 8;
    {
        auto f0 = Callable::factory<Made>(); auto f1 = Callable::factory<Made, int>(); auto f3 = Callable::factory<Made, int, std::string, double>();
        auto n3 = Callable::factoryNew<Made, int, std::string, double>(); auto s3 = Callable::factoryShared<Made, int, std::string, double>();
        VF_CHECK(f0.type(-1) == typeid(Made) && n3.type(-1) == typeid(Made *) && s3.type(-1) == typeid(std::shared_ptr<Made>), "return-type", "factory");
        VF_CHECK(f0.getNumArgs() == 0 && f1.getNumArgs() == 1 && n3.getNumArgs() == 3 && s3.getNumArgs() == 3 && f3.type(1) == typeid(std::string) && s3.type(2) == typeid(double), "argument-count", "factory");
        { Object o = f0.call(); VF_CHECK(built == 1 && alive == 1, "constructed-once", built << " built"); VF_CHECK(o.extract<Made>().a == -1, "wrong-result", "default constructor"); }
        VF_CHECK(alive == 0, "not-destroyed", alive);
        built = 0; { Object o = f3.call(x, s, d); auto &m = o.extract<Made>(); VF_CHECK(built == 1 && m.a == x && m.s == s && m.d == d, "wrong-result", "constructor"); Object o2 = f3.call(long(x), s, float(d)); VF_CHECK(o2.extract<Made>().a == x && o2.extract<Made>().d == d, "wrong-result", "converted constructor"); }
        built = 0; { Object o = n3.call(x, s, d); Made *m = o.extract<Made *>(); VF_CHECK(built == 1 && m->a == x && m->s == s && m->d == d, "wrong-result", "new"); o = Object(); VF_CHECK(alive == 1, "factory-new-owns", ""); delete m; }
        built = 0; { std::shared_ptr<Made> k; { Object o = s3.call(x, s, d); k = o.extract<std::shared_ptr<Made>>(); } VF_CHECK(built == 1 && alive == 1 && k->a == x && k->s == s && k->d == d && k.use_count() == 1, "wrong-result", "shared"); }
        VF_CHECK(alive == 0, "not-destroyed", alive);
        built = 0; argError([&]{ f3.call(x, s); }, "constructor with too few"); argError([&]{ f3.call(s, x, d); }, "constructor with swapped"); argError([&]{ f1.call(); }, "none");
        try { f1.call(66666); violation("exception-not-propagated", "constructor"); } catch (const Boom &b) { VF_CHECK(b.id == 9, "exception-not-propagated", ""); }
        VF_CHECK(built == 0 && alive == 0, "target-ran-with-bad-arguments", "constructor");
        { auto b = f3; b.bind(s, 1); Object o = b.call(x, d); VF_CHECK(o.extract<Made>().s == s && o.extract<Made>().a == x, "wrong-arguments", "bound constructor"); }
        //references
        int v = x; Callable bc(&bump); bc.call(std::ref(v), 5); VF_CHECK(v == x + 5, "reference-argument", v); bc.bind(std::ref(v), 0); bc.call(7); Callable copy(bc); copy.call(1); VF_CHECK(v == x + 13, "reference-argument", v);
        bc.unbind(0); argError([&]{ bc.call(7); }, "unbound reference"); VF_CHECK(v == x + 13, "reference-argument", v); copy.call(1); VF_CHECK(v == x + 14, "copy-depends-on-original", v);
        Made made(x); Callable rf(&Made::ref), cf(&Made::cref); Object ro = rf.call(std::ref(made)); VF_CHECK(&ro.extract<int>() == &made.field, "reference-result", ""); made.field = 77; VF_CHECK(cf.call<int>(std::ref(made)) == 77, "wrong-result", "const ref");
        //typed interface
        Callable j(&join); const int num = int(r.range(0, 99)); const std::string want = join(s, num, d);
        VF_CHECK((j.call<std::string>(s, num, d)) == want, "wrong-result", "typed"); VF_CHECK((j.call(s, (unsigned char)num, float(d)).extract<std::string>()) == want, "wrong-result", "typed converted");
        j.bind(num, 1); VF_CHECK((j.call<std::string>(s, d)) == want, "wrong-result", "typed bound");
        try { j.call<int>(s, d); violation("bad-return-accepted", ""); } catch (const CallableReturnError &) {} 
        try { j.call<std::vector<Made>>(s, d); violation("bad-return-accepted", ""); } catch (const CallableReturnError &) {}
        Callable nul; for (int k = 0; k < 3; k++) try { if (k == 0) nul.call(); if (k == 1) nul.getNumArgs(); if (k == 2) nul.type(-1); violation("null-call-accepted", std::to_string(k)); } catch (const CallableNullError &) {}
        VF_CHECK(!nul, "null-state", "");
    }
    VF_CHECK(alive == 0, "not-destroyed", alive); count("factories"); if (c == 0) sample("construct via factory/factoryNew/factoryShared with (" + std::to_string(x) + ", string of " + std::to_string(s.size()) + ", " + std::to_string(d) + ")"); distinct(std::to_string(x) + hexOf(s));
}

//! registries
struct BaseA { int pad[5]; virtual ~BaseA(void) {} };
struct BaseB
{
    int tagB = 99;
    int b1(int a) { note(20, this, a); return tagB; } int b2(std::string a) const { note(21, this, a); return tagB; } void b3(int a, int b) { note(22, this, a, b); }
};
struct RegBlock : public Block, public BaseA, public BaseB
{
    template <typename F> void reg(const std::string &n, F f) { this->registerCall(this, n, f); } void regc(const std::string &n, const Callable &k) { this->registerCallable(n, k); }
    void m0(void) { note(10, this); } void m1(int a) { note(11, this, a); } void m2(std::string a) { note(12, this, a); } int m3(double a, int b) { note(13, this, a, b); return 13; }
    int m4(std::string a, int b) { note(14, this, a, b); return 14; } int m5(Object a) { note(15, this, a); return 15; } int m6(int a, int b, std::string c) const { note(16, this, a, b, c); return 16; }
    std::string m7(std::vector<int> a) { note(17, this, a); return "m7"; } Object m8(unsigned char a) { note(18, this, a); return Object(18); }
};
struct RegTopo : public Topology { template <typename F> void reg(const std::string &n, F f) { this->registerCall(this, n, f); } int t1(int a) { note(30, this, a); return a * 2; } std::string t2(std::string a, int b) const { note(31, this, a, b); return a; } void t3(void) { note(32, this); } };
struct Ov { int id; std::vector<const std::type_info *> types; Object ret; bool baseB; };
static void registryCase(Rng &r, uint64_t c)
{
    std::vector<std::unique_ptr<RegBlock>> blocks; std::vector<std::map<std::string, std::vector<Ov>>> model; std::string sig;
    const std::vector<std::string> names{"alpha", "beta", "gamma", "_delta"};
    for (size_t nb = 1 + r.below(3); nb > 0; nb--)
    {
        blocks.emplace_back(new RegBlock()); model.emplace_back(); auto *b = blocks.back().get(); auto &m = model.back(); b->tagB = int(nb * 100);
        std::vector<int> order; for (int i = 0; i < 13; i++) if (r.chance(2, 3)) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        for (int o : order)
        {
            const auto &n = names[r.below(names.size())]; sig += std::to_string(o) + n[0]; auto &v = m[n];
#define T_(x) &typeid(x)
            switch (o)
            {
            case 0: b->reg(n, &RegBlock::m0); v.push_back(Ov{10, {}, Object(), false}); break;
            case 1: b->reg(n, &RegBlock::m1); v.push_back(Ov{11, {T_(int)}, Object(), false}); break;
            case 2: b->reg(n, &RegBlock::m2); v.push_back(Ov{12, {T_(std::string)}, Object(), false}); break;
            case 3: b->reg(n, &RegBlock::m3); v.push_back(Ov{13, {T_(double), T_(int)}, Object(13), false}); break;
            case 4: b->reg(n, &RegBlock::m4); v.push_back(Ov{14, {T_(std::string), T_(int)}, Object(14), false}); break;
            case 5: b->reg(n, &RegBlock::m5); v.push_back(Ov{15, {T_(Object)}, Object(15), false}); break;
            case 6: b->reg(n, &RegBlock::m6); v.push_back(Ov{16, {T_(int), T_(int), T_(std::string)}, Object(16), false}); break;
            case 7: b->reg(n, &RegBlock::m7); v.push_back(Ov{17, {T_(std::vector<int>)}, Object(std::string("m7")), false}); break;
            case 8: b->reg(n, &RegBlock::m8); v.push_back(Ov{18, {T_(unsigned char)}, Object::make(Object(18)), false}); break;
            case 9: b->reg(n, &RegBlock::b1); v.push_back(Ov{20, {T_(int)}, Object(b->tagB), true}); break;
            case 10: b->reg(n, &RegBlock::b2); v.push_back(Ov{21, {T_(std::string)}, Object(b->tagB), true}); break;
            case 11: b->reg(n, &RegBlock::b3); v.push_back(Ov{22, {T_(int), T_(int)}, Object(), true}); break;
            default: { Callable k(&RegBlock::m4); k.bind(std::ref(*b), 0); k.bind(r.range(5, 9), 2); b->regc(n, k); v.push_back(Ov{14, {T_(std::string)}, Object(14), false}); v.back().id = 1400 + int(k.getNumArgs()); break; }
            }
        }
    }
    for (size_t k = 20 + r.below(40); k > 0; k--)
    {
        const size_t bi = r.below(blocks.size()); const auto &n = r.chance(1, 12) ? std::string("nothing") : names[r.below(names.size())]; auto mit = model[bi].find(n);
        ObjectVector args{Object(n)}; 
        if (mit != model[bi].end() && !mit->second.empty() && r.chance(3, 4)) { for (auto *t : r.pick(mit->second).types) args.push_back(r.chance(1, 5) ? Object(short(r.range(0, 99))) : *t == typeid(int) ? Object(int(r.range(-99, 99))) : *t == typeid(std::string) ? Object(randString(r)) : *t == typeid(double) ? Object(double(r.range(-99, 99))) : *t == typeid(std::vector<int>) ? Object(Mk<std::vector<int>>::make(r)) : otherArg(r)); }
        else for (size_t q = r.below(4); q > 0; q--) args.push_back(otherArg(r));
        if (r.chance(1, 10)) args.push_back(Object(3));
        const size_t na = args.size() - 1;
        const Ov *want = nullptr; bool noSuch = mit == model[bi].end(), single = false;
        if (!noSuch)
        {
            if (mit->second.size() == 1) { want = &mit->second[0]; single = true; }
            else for (auto &o : mit->second) { if (o.types.size() != na) continue; bool ok = true; for (size_t i = 0; i < na; i++) if (!args[i + 1].canConvert(*o.types[i])) ok = false; if (ok) { want = &o; break; } }
        }
        ObjectVector expect; bool refuse = !want; if (want) for (size_t i = 0; i < want->types.size() && !refuse; i++) { if (i >= na) { refuse = true; break; } if (caught([&]{ expect.push_back(args[i + 1].convert(*want->types[i])); }) != "") refuse = true; }
        recs.clear(); Object ret; int how = 0; std::string text;
        try { auto &b = *blocks[bi]; if (na == 0) ret = b.call(n); else if (na == 1) ret = b.call(n, args[1]); else if (na == 2) ret = b.call(n, args[1], args[2]); else if (na == 3) ret = b.call(n, args[1], args[2], args[3]); else ret = b.call(n, args[1], args[2], args[3], args[4]); } catch (const BlockCallNotFound &e) { how = 1; text = e.displayText(); } catch (const Exception &e) { how = 2; text = e.displayText(); }
        if (noSuch || (!want)) { VF_CHECK(how == 1, "unknown-call-accepted", n); VF_CHECK(recs.empty(), "target-ran-with-bad-arguments", n); count("no_match"); continue; }
        if (refuse) { VF_CHECK(how != 0, "bad-arguments-accepted", n); VF_CHECK(recs.empty(), "target-ran-with-bad-arguments", n); count("registry_refused"); continue; }
        VF_CHECK(how == 0, "good-arguments-refused", text); if (how) continue;
        VF_CHECK(recs.size() == 1, recs.empty() ? "target-not-called" : "target-called-twice", n); if (recs.size() != 1) continue;
        const bool bnd = want->id >= 1400; const int id = bnd ? 14 : want->id;
        VF_CHECK(recs[0].id == id, "wrong-overload", n << " called " << recs[0].id << " not " << id);
        if (recs[0].id != id) continue;
        VF_CHECK(recs[0].self == (want->baseB ? (const void *)static_cast<BaseB *>(blocks[bi].get()) : (const void *)blocks[bi].get()), "wrong-instance", n);
        auto got = recs[0].args; if (bnd && got.size() == 2) got.pop_back();
        VF_CHECK(vecEq(got, expect), "wrong-arguments", n << " got " << Object(got).toString() << " expected " << Object(expect).toString());
        VF_CHECK(deepEq(ret, want->ret), "wrong-result", n << " " << ret.toString());
        count(single ? "registry_calls" : "overload_calls");
    }
    //topologies have calls too
    RegTopo t; t.reg("one", &RegTopo::t1); t.reg("two", &RegTopo::t2); t.reg("three", &RegTopo::t3);
    const int x = int(r.range(-1000, 1000)); recs.clear(); VF_CHECK((t.call<int>("one", x)) == x * 2, "wrong-result", "topology"); VF_CHECK((t.call<std::string>("two", "abc", long(3))) == "abc", "wrong-result", "topology"); t.call("three");
    VF_CHECK(recs.size() == 3 && recs[0].id == 30 && recs[1].id == 31 && recs[2].id == 32 && recs[0].self == static_cast<void *>(&t), "wrong-overload", "topology");
    for (int k = 0; k < 3; k++) try { if (k == 0) t.call("four"); if (k == 1) t.call("one"); if (k == 2) t.call("one", "x"); violation("bad-arguments-accepted", "topology"); } catch (const Exception &) {}
    VF_CHECK(recs.size() == 3, "target-ran-with-bad-arguments", "topology"); count("topology_calls", 3);
    if (c < 1) sample("overloads registered in order " + sig); distinct(sig);
}

//! one callable shared by many threads
static int mix(const int a, const std::string &s, const long long b) { return int(a * 31 + long(s.size()) * 7 + b); }
static void mtCase(Rng &r, uint64_t c)
{
    Callable shared(&mix); const int which = int(r.below(4)); if (which == 1) shared.bind(3, 0); if (which == 2) shared.bind(std::string("hello"), 1); if (which == 3) { shared.bind(9, 2); shared.bind(1, 0); }
    const unsigned nt = 2 + unsigned(r.below(4)); std::vector<std::thread> ts; std::atomic<uint64_t> bad{0}, n{0};
    for (unsigned t = 0; t < nt; t++) ts.emplace_back([&, t]
    {
        Rng q(c * 977 + t);
        for (int k = 0; k < 150; k++)
        {
            const int a = int(q.range(0, 99)); const std::string s(q.below(9), 'x'); const long long b = q.range(0, 999); Callable mine = shared; const Callable &use = q.flip() ? shared : mine; int got = 0, want = 0;
            switch (which) { case 0: got = use.call<int>(a, s, b); want = mix(a, s, b); break; case 1: got = use.call<int>(s, short(b)); want = mix(3, s, b); break; case 2: got = use.call<int>((unsigned char)a, b); want = mix(a, "hello", b); break; default: got = use.call<int>(s); want = mix(1, s, 9); }
            if (got != want) bad++; n++;
            if (mine.getNumArgs() > 0) { mine.bind(Object(5), 0); mine.unbind(0); }
        }
    });
    for (auto &t : ts) t.join();
    VF_CHECK(bad == 0, "concurrent-wrong-result", bad << " of " << n); count("concurrent_calls", n); distinct(std::to_string(which) + "/" + std::to_string(nt)); if (c == 0) sample(std::to_string(nt) + " threads on one callable");
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"bind", bindCase}, {"factory", factoryCase}, {"registry", registryCase}, {"mt", mtCase}});
}
