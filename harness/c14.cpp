// C14: value conversion is exact within range or it throws
#include "vfp.hpp"
#include <Pothos/Proxy.hpp>
using namespace vf; using namespace Pothos;
typedef __int128 I128;
//! a number, exactly: integers as I128, reals as long double (64 bit mantissa holds every source type)
struct Num { bool integral; I128 i; long double re, im; std::string type; };
template <typename T> static Num num(T v, const char *t) { Num n; n.integral = std::is_integral<T>::value; n.i = n.integral ? I128(v) : 0; n.re = (long double)v; n.im = 0; n.type = t; return n; }
template <typename T> static Num cnum(std::complex<T> v, const char *t) { Num n; n.integral = false; n.i = 0; n.re = (long double)v.real(); n.im = (long double)v.imag(); n.type = t; return n; }
static std::string show(const Num &n) { std::ostringstream o; o.precision(22); o << n.type << " "; if (n.integral) { o << (n.i < 0 ? "-" : "") << (unsigned long long)(n.i < 0 ? -n.i : n.i); } else { o << n.re; if (n.im != 0) o << "+" << n.im << "i"; } return o.str(); }

enum Want { MUST, MAY, THROW };
template <typename T> static typename std::enable_if<std::is_integral<T>::value, Want>::type want(long double re, long double im)
{
    if (im != 0 || std::isnan(im)) return THROW;
    if (!std::isfinite(re)) return THROW;
    const long double lo = (long double)std::numeric_limits<T>::lowest(), hi = (long double)std::numeric_limits<T>::max();
    if (re >= lo && re <= hi) return MUST;
    if (re > lo - 1 && re < hi + 1) return MAY; //truncates into range
    return THROW;
}
template <typename T> static typename std::enable_if<std::is_floating_point<T>::value, Want>::type want(long double re, long double im)
{
    if (im != 0 || std::isnan(im)) return THROW;
    if (!std::isfinite(re)) return MAY; //but never as something else
    if (std::fabs(re) <= (long double)std::numeric_limits<T>::max()) return MUST;
    return std::isinf(T(re)) ? THROW : MAY;
}
template <typename T> static Want part(long double x) { return want<T>(x, 0); }

template <typename T> static bool same(T got, const Num &n, long double x)
{
    if (std::is_integral<T>::value) { if (n.integral) return I128(got) == n.i; return (long double)got == std::trunc(x); }
    if (std::isnan(x)) return std::isnan((long double)got);
    if (std::isinf(x)) return (long double)got == x;
    if ((long double)got == (long double)T(x)) return true;
    //rounding through an intermediate double may differ by one step
    return T(got) == std::nextafter(double(T(x)), double(INFINITY)) || (sizeof(T) == 4 && (float(got) == std::nextafter(float(x), INFINITY) || float(got) == std::nextafter(float(x), -INFINITY)));
}
template <typename T> struct To
{
    static void check(const Object &o, const Num &n, const char *t)
    {
        const Want w = want<T>(n.re, n.im); T got = T(); const auto err = caught([&] { got = o.convert<T>(); });
        report(err, w, n, t, err.empty() && same<T>(got, n, n.re), err.empty() ? std::to_string(got) : "");
    }
    static void report(const std::string &err, Want w, const Num &n, const char *t, bool ok, const std::string &got)
    {
        count("conversions"); if (!err.empty()) count("refused");
        if (err.empty() && w == THROW) violation("out-of-range-accepted", show(n) + " to " + t + " gave " + got);
        else if (err.empty() && !ok) violation("wrong-value", show(n) + " to " + t + " gave " + got);
        else if (!err.empty() && w == MUST) violation("in-range-refused", show(n) + " to " + t + ": " + err);
    }
};
template <typename T> struct To<std::complex<T>>
{
    static void check(const Object &o, const Num &n, const char *t)
    {
        Want a = part<T>(n.re), b = part<T>(n.im), w = (a == THROW || b == THROW) ? THROW : (a == MAY || b == MAY) ? MAY : MUST; std::complex<T> got; const auto err = caught([&] { got = o.convert<std::complex<T>>(); });
        std::ostringstream s; s << got; To<T>::report(err, w, n, t, err.empty() && same<T>(got.real(), n, n.re) && same<T>(got.imag(), n, n.im), s.str());
    }
};
#define TARGETS(X) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned int) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(std::complex<float>) X(std::complex<double>)
static void checkAll(const Object &o, const Num &n)
{
#define X_(T) { VF_CHECK(o.canConvert(typeid(T)), "converter-missing", n.type << " to " #T); VF_CHECK(Object::canConvert(o.type(), typeid(T)), "converter-missing", n.type << " to " #T); To<T>::check(o, n, #T); \
    const auto e = caught([&] { const Object c = o.convert(typeid(T)); VF_CHECK(c.type() == typeid(T), "converted-type", c.getTypeString() << " for " #T); }); (void)e; }
    TARGETS(X_)
#undef X_
    distinct(show(n));
}
//! a real number near the limits of some integer type, or anything
template <typename F> static F edgeFloat(Rng &r)
{
    if (r.flip()) return interestingFloat<F>(r);
    F x = F(std::ldexp(1.0, int(r.pick(std::vector<int>{7, 8, 15, 16, 31, 32, 53, 63, 64, 24, 127, 128})))); if (r.flip()) x = -x;
    for (int k = int(r.below(3)); k > 0; k--) x = r.flip() ? std::nextafter(x, F(0)) : std::nextafter(x, x * 2);
    if (r.chance(1, 3)) x += F(r.range(-4, 4)) / 4; return x;
}
static void numberCase(Rng &r, uint64_t)
{
    for (int k = 0; k < 6; k++)
    {
#define X_(T) { const T v = interestingInt<T>(r); checkAll(Object(v), num<T>(v, #T)); }
        VF_INTS(X_)
#undef X_
        { const float v = edgeFloat<float>(r); checkAll(Object(v), num(v, "float")); }
        { const double v = edgeFloat<double>(r); checkAll(Object(v), num(v, "double")); }
        { const std::complex<float> v(edgeFloat<float>(r), r.flip() ? 0.0f : edgeFloat<float>(r)); checkAll(Object(v), cnum(v, "cfloat")); }
        { const std::complex<double> v(edgeFloat<double>(r), r.flip() ? 0.0 : edgeFloat<double>(r)); checkAll(Object(v), cnum(v, "cdouble")); }
        { const std::complex<long long> v(interestingInt<long long>(r), r.flip() ? 0 : interestingInt<long long>(r)); auto n = cnum(v, "csllong"); To<std::complex<double>>::check(Object(v), n, "cdouble"); To<double>::check(Object(v), n, "double"); }
        { const std::complex<short> v(interestingInt<short>(r), interestingInt<short>(r)); auto n = cnum(v, "csshort"); To<std::complex<double>>::check(Object(v), n, "cdouble"); }
    }
    sample("all number pairs at type limits");
}

//! vectors, element by element
template <typename A, typename B> static void vec(Rng &r, const char *what)
{
    std::vector<A> v; std::vector<Num> ns; Want all = MUST;
    for (size_t n = r.below(7); n > 0; n--)
    {
        A x = std::is_integral<A>::value ? A(r.flip() ? A(r.range(0, 100)) : interestingInt<long long>(r)) : A(r.flip() ? A(r.range(-100, 100)) : edgeFloat<double>(r)); v.push_back(x); ns.push_back(num<A>(x, what));
        const Want w = want<B>(ns.back().re, 0); if (w == THROW) all = THROW; else if (w == MAY && all == MUST) all = MAY;
    }
    std::vector<B> got; const auto err = caught([&] { got = Object(v).convert<std::vector<B>>(); });
    count("vector_conversions");
    if (!err.empty()) { VF_CHECK(all != MUST, "in-range-refused", what << ": " << err); return; }
    VF_CHECK(all != THROW, "out-of-range-accepted", what << " vector"); VF_CHECK(got.size() == v.size(), "vector-length", what << " " << got.size() << " of " << v.size());
    if (all != THROW) for (size_t i = 0; i < std::min(got.size(), v.size()); i++) VF_CHECK(same<B>(got[i], ns[i], ns[i].re), "wrong-value", what << " vector element " << i << " " << show(ns[i]));
}
//! typed vector -> proxy vector -> typed vector, and through object vectors
template <typename T> static void viaProxy(Rng &r, const std::vector<T> &v, const char *what)
{
    (void)r; Object o(v), back, ov; const auto err = caught([&] { const Object pv(o.convert<ProxyVector>()); VF_CHECK(pv.extract<ProxyVector>().size() == v.size(), "vector-length", what); back = Object(pv.convert<std::vector<T>>()); ov = Object(pv.convert<ObjectVector>()); });
    VF_CHECK(err.empty(), "in-range-refused", what << ": " << err); if (!err.empty()) return;
    VF_CHECK(deepEq(back, o), "wrong-value", what << " vector through proxies");
    auto &e = ov.extract<ObjectVector>(); VF_CHECK(e.size() == v.size(), "vector-length", what); for (size_t i = 0; i < std::min(e.size(), v.size()); i++) { const T x = v[i]; VF_CHECK(deepEq(e[i], Object(x)), "wrong-value", what << " element " << i << " through proxies"); }
    const std::vector<std::vector<T>> mat{v, {}, v}; const auto e2 = caught([&] { const Object pm(Object(mat).convert<ProxyVector>()); const auto b = pm.convert<std::vector<std::vector<T>>>(); VF_CHECK(b.size() == 3 && b[1].empty() && deepEq(Object(b[0]), o) && deepEq(Object(b[2]), o), "wrong-value", what << " matrix"); });
    VF_CHECK(e2.empty(), "in-range-refused", what << " matrix: " << e2); count("proxy_vector_conversions");
}
static void containerCase(Rng &r, uint64_t)
{
#define V_(A) vec<A, char>(r, #A ">char"); vec<A, signed char>(r, #A ">schar"); vec<A, unsigned char>(r, #A ">uchar"); vec<A, short>(r, #A ">short"); vec<A, unsigned short>(r, #A ">ushort"); vec<A, int>(r, #A ">int"); vec<A, unsigned int>(r, #A ">uint"); vec<A, long>(r, #A ">long"); vec<A, unsigned long>(r, #A ">ulong"); vec<A, long long>(r, #A ">llong"); vec<A, unsigned long long>(r, #A ">ullong"); vec<A, float>(r, #A ">float"); vec<A, double>(r, #A ">double");
    V_(long long) V_(unsigned long long) V_(double)
#define P_(T) viaProxy<T>(r, randVec<T>(r, interestingInt<T>), #T);
    VF_INTS(P_)
    viaProxy<bool>(r, randVec<bool>(r, [](Rng &q) { return q.flip(); }), "bool"); viaProxy<float>(r, randVec<float>(r, interestingFloat<float>), "float"); viaProxy<double>(r, randVec<double>(r, interestingFloat<double>), "double");
    viaProxy<std::complex<double>>(r, randVec<std::complex<double>>(r, [](Rng &q) { return std::complex<double>(interestingFloat<double>(q), interestingFloat<double>(q)); }), "cdouble");
    viaProxy<std::string>(r, randVec<std::string>(r, [](Rng &q) { return randString(q); }), "string");
    //bytes and strings
    { const auto s = randString(r); const auto v = Object(s).convert<std::vector<char>>(); VF_CHECK(std::string(v.begin(), v.end()) == s, "wrong-value", "string to bytes"); VF_CHECK(Object(v).convert<std::string>() == s, "wrong-value", "bytes to string");
      VF_CHECK(Object(std::vector<signed char>(s.begin(), s.end())).convert<std::string>() == s && Object(std::vector<unsigned char>(s.begin(), s.end())).convert<std::string>() == s, "wrong-value", "bytes to string"); count("string_conversions"); }
    //nested containers of objects
    {
        ObjectVector v; for (size_t n = r.below(6); n > 0; n--) v.push_back(r.chance(1, 4) ? Object(ObjectVector{randScalar(r), randScalar(r)}) : randScalar(r)); const Object o(v);
        const auto back = Object(o.convert<ProxyVector>()).convert<ObjectVector>(); bool ok = back.size() == v.size(); for (size_t i = 0; ok && i < v.size(); i++) ok = deepEq(v[i], back[i]); VF_CHECK(ok, "wrong-value", "object vector through proxies");
        ObjectSet s; const unsigned kk = r.below(3); for (size_t n = r.below(8); n > 0; n--) s.insert(randKey(r, kk)); const Object os(s); VF_CHECK(deepEq(Object(Object(os.convert<ProxySet>()).convert<ObjectSet>()), os), "wrong-value", "object set through proxies");
        ObjectMap m; for (size_t n = r.below(8); n > 0; n--) m[randKey(r, kk)] = randScalar(r); const Object om(m); VF_CHECK(deepEq(Object(Object(om.convert<ProxyMap>()).convert<ObjectMap>()), om), "wrong-value", "object map through proxies");
        { ObjectMap mk; for (size_t n = r.below(9); n > 0; n--) mk[r.chance(1, 6) ? Object(r.flip()) : randKey(r, r.below(3))] = randScalar(r); const Object omk(mk); const auto e = caught([&] { VF_CHECK(deepEq(Object(Object(omk.convert<ProxyMap>()).convert<ObjectMap>()), omk), "entries-dropped", "mixed keys through a proxy map: " << omk.toString()); ObjectSet ks; for (auto &p : mk) ks.insert(p.first); const Object oks(ks); VF_CHECK(deepEq(Object(Object(oks.convert<ProxySet>()).convert<ObjectSet>()), oks), "entries-dropped", "mixed keys through a proxy set: " << omk.toString()); }); VF_CHECK(e.empty(), "in-range-refused", "mixed keys " << e); count("mixed_key_maps"); }
        ObjectKwargs k; for (size_t n = r.below(8); n > 0; n--) k[randString(r)] = randScalar(r); const Object ok2(k); VF_CHECK(deepEq(Object(Object(ok2.convert<ObjectMap>()).convert<ObjectKwargs>()), ok2), "wrong-value", "kwargs through object map");
        { const auto e = caught([&] { VF_CHECK(deepEq(Object(Object(Object(ok2.convert<ObjectMap>()).convert<ProxyMap>()).convert<ObjectKwargs>()), ok2), "wrong-value", "kwargs through proxy map"); }); VF_CHECK(e.empty(), "in-range-refused", "kwargs through proxy map " << e); }
        //keys that print alike must not swallow entries
        ObjectMap mixed; std::set<std::string> prints; auto print = [](const Object &k) { return k.type() == typeid(std::string) ? k.extract<std::string>() : k.toString(); }; for (size_t n = r.below(6); n > 0; n--) { const int x = int(r.range(0, 4)); const Object key = r.flip() ? Object(x) : Object(std::to_string(x)); mixed[key] = Object(int(n)); } for (auto &p : mixed) prints.insert(print(p.first));
        ObjectKwargs kw; const auto e = caught([&] { kw = Object(mixed).convert<ObjectKwargs>(); }); if (e.empty()) { VF_CHECK(kw.size() == mixed.size(), "entries-dropped", mixed.size() << " map entries became " << kw.size()); for (auto &p : mixed) VF_CHECK(kw.count(print(p.first)) && (prints.size() < mixed.size() || deepEq(kw[print(p.first)], p.second)), "wrong-value", "map key " << p.first.toString()); } else VF_CHECK(prints.size() < mixed.size(), "in-range-refused", e); if (prints.size() < mixed.size()) count("colliding_keys");
        std::map<std::string, std::string> sm; ObjectMap som; for (size_t n = r.below(6); n > 0; n--) { const auto a = randString(r), b = randString(r); sm[a] = b; som[Object(a)] = Object(b); } typedef std::map<std::string, std::string> SM; VF_CHECK(Object(Object(som).convert<ProxyMap>()).convert<SM>() == sm, "wrong-value", "string map");
        std::vector<Label> lv; for (size_t n = r.below(4); n > 0; n--) lv.push_back(randLabel(r, 0)); VF_CHECK(deepEq(Object(Object(Object(lv).convert<ProxyVector>()).convert<std::vector<Label>>()), Object(lv)), "wrong-value", "label vector"); count("container_conversions", 8);
    }
    //same type, and reported ability
    {
        const Object o = randObject(r, 2); if (o) { VF_CHECK(o.convert(o.type()) == o, "same-type-not-identity", o.getTypeString()); VF_CHECK(o.canConvert(o.type()), "converter-missing", o.getTypeString()); }
        if (o) VF_CHECK(deepEq(o.convert(typeid(Object)).extract<Object>(), o), "wrong-value", "into an object");
        //vectors of narrow numbers need the optional SIMD build and are left out
        static const std::vector<const std::type_info *> all{&typeid(int), &typeid(double), &typeid(std::string), &typeid(unsigned long long), &typeid(ObjectVector), &typeid(ObjectMap), &typeid(ObjectKwargs), &typeid(bool), &typeid(std::complex<float>), &typeid(ProxyMap), &typeid(ProxySet), &typeid(DType), &typeid(Label), &typeid(Packet), &typeid(std::map<int, int>)};
        static const std::set<const std::type_info *> ok{};
        for (auto *t : all)
        {
            const Object src = r.flip() ? randScalar(r) : Object(ObjectKwargs()); const bool can = src.canConvert(*t); VF_CHECK(can == Object::canConvert(src.type(), *t), "can-convert-inconsistent", src.getTypeString());
            bool noConv = false; try { const Object d = src.convert(*t); VF_CHECK(d.type() == *t, "converted-type", d.getTypeString()); VF_CHECK(can, "convert-beyond-can-convert", src.getTypeString()); count("ability_checks"); } catch (const ObjectConvertError &e) { noConv = e.displayText().find("doesnt support") != std::string::npos; count("ability_checks"); VF_CHECK(!(noConv && can), "converter-missing", src.getTypeString() << " " << e.displayText()); } catch (const Pothos::Exception &) {}
        }
    }
    distinct(r.next());
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"numbers", numberCase}, {"containers", containerCase}}); }
