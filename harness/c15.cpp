// C15: comparison, equality, ordering and hashing are coherent
#include "vfp.hpp"
#include <Pothos/Object/Serialize.hpp>
using namespace vf; using namespace Pothos;
//! reference view of a value
struct Ref { int cls; long double num; std::string str; int same; }; //cls 0 number, 1 string, 2 null, 3 bool, 4 complex with imaginary part, 5 other; same: identity for 4,5
struct Item { Object o; Ref r; std::string text; };
template <typename T> static Item number(T v, const char *t) { Item i; i.o = Object(v); i.r = Ref{0, (long double)v, "", 0}; std::ostringstream s; s.precision(22); s << t << ":" << (long double)v; i.text = s.str(); return i; }
static long double base(Rng &r)
{
    switch (r.below(5)) { case 0: return (long double)r.range(-3, 3); case 1: return std::ldexp(1.0L, int(r.range(0, 64))) + (long double)r.range(-2, 2); case 2: return -std::ldexp(1.0L, int(r.range(0, 63))) + (long double)r.range(-2, 2); case 3: return (long double)r.range(-1000, 1000) / 8; default: return (long double)(r.next() >> r.below(60)); }
}
template <typename T> static bool fits(long double v) { return v >= (long double)std::numeric_limits<T>::lowest() && v <= (long double)std::numeric_limits<T>::max(); }
static Item asType(Rng &r, long double v)
{
    for (;;)
    {
#define N_(c, T) case c: if (!fits<T>(v)) continue; return number<T>((T)(v), #T);
        switch (r.below(15))
        {
        N_(0, char) N_(1, signed char) N_(2, unsigned char) N_(3, short) N_(4, unsigned short) N_(5, int) N_(6, unsigned int) N_(7, long) N_(8, unsigned long) N_(9, long long) N_(10, unsigned long long)
        case 11: { const float f = r.chance(1, 6) ? (r.flip() ? INFINITY : -INFINITY) : float(v); return number<float>(f, "float"); }
        case 12: { double d = r.chance(1, 8) ? (r.flip() ? INFINITY : -INFINITY) : double(v); if (r.chance(1, 4)) d = std::nextafter(d, r.flip() ? INFINITY : -INFINITY); if (r.chance(1, 20)) d = r.flip() ? -1e-300 : 5e-320; return number<double>(d, "double"); }
        case 13: { Item i = number<double>(double(v), "cdouble"); i.o = Object(std::complex<double>(double(v), 0)); return i; }
        default: { Item i = number<float>(float(v), "cfloat"); i.o = Object(std::complex<float>(float(v), 0)); return i; }
        }
    }
}
static Item item(Rng &r, std::vector<Item> &pool)
{
    static int ids = 1; Item i;
    switch (r.below(12))
    {
    case 0: case 1: { i.r = Ref{1, 0, pool.empty() || r.flip() ? randString(r, 6) : r.pick(pool).r.str + (r.flip() ? "" : std::string(1, char(r.below(256)))), 0}; i.o = r.flip() ? Object(i.r.str) : Object::emplace<std::string>(i.r.str); i.text = "string:" + hexOf(i.r.str); return i; }
    case 2: i.r = Ref{2, 0, "", 0}; i.text = "null"; return i;
    case 3: { const bool b = r.flip(); i.o = Object(b); i.r = Ref{3, b ? 1.0L : 0.0L, "", 0}; i.text = b ? "true" : "false"; return i; }
    case 4: if (r.flip()) { const int re = int(r.range(0, 2)), im = 1 + int(r.below(2)); const bool d = r.flip(); i.o = d ? Object(std::complex<double>(re, im)) : Object(std::complex<float>(float(re), float(im))); i.r = Ref{4, (long double)re, "", -(im * 2 + d)}; i.text = "complex"; return i; } //fallthrough
    case 5: if (r.chance(1, 3)) { i.o = Object(std::vector<int>{1, 2}); i.r = Ref{5, 0, "", ids++}; i.text = "vector"; return i; } //fallthrough
    case 6: if (!pool.empty()) { i = r.pick(pool); i.text = "copy of " + i.text; return i; } //fallthrough
    case 7: if (!pool.empty()) { const auto &p = r.pick(pool); if (p.r.cls == 0 && std::isfinite(p.r.num)) return asType(r, std::floor(p.r.num) == p.r.num ? p.r.num + (long double)r.range(-1, 1) : p.r.num); } //fallthrough
    case 8: //a number equal to the hash of something else
        if (!pool.empty() && r.chance(1, 3)) { const size_t h = r.pick(pool).o.hashCode(); return number<unsigned long>(h, "ulong"); } //fallthrough
    default: return asType(r, base(r));
    }
}
static bool refComparable(const Ref &a, const Ref &b) { return (a.cls == 0 && b.cls == 0) || (a.cls == 1 && b.cls == 1) || (a.cls == 2 && b.cls == 2); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int refCompare(const Ref &a, const Ref &b) { if (a.cls == 0) return a.num == b.num ? 0 : a.num < b.num ? -1 : 1; if (a.cls == 1) return sgn(a.str.compare(b.str)); return 0; }
static bool refEqual(const Ref &a, const Ref &b) { if (a.cls != b.cls) return false; if (a.cls == 3) return a.num == b.num; if (a.cls >= 4) return a.same == b.same && a.num == b.num; return refCompare(a, b) == 0; }

static void coherentCase(Rng &r, uint64_t)
{
    std::vector<Item> p; for (size_t n = size_t(r.range(4, 14)); n > 0; n--) p.push_back(item(r, p));
    std::string sig; for (auto &x : p) sig += x.text + " "; const size_t n = p.size(); std::vector<std::vector<char>> lt(n, std::vector<char>(n));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    {
        const auto &a = p[i], &b = p[j]; const std::string ab = a.text + " against " + b.text; int c = 0; bool threw = false;
        try { c = a.o.compareTo(b.o); } catch (const ObjectCompareError &) { threw = true; } catch (const Pothos::Exception &e) { violation("compare-error-type", ab + ": " + e.displayText()); threw = true; }
        if (refComparable(a.r, b.r)) { VF_CHECK(!threw, "comparable-refused", ab); if (!threw) VF_CHECK(sgn(c) == refCompare(a.r, b.r), "wrong-order", ab << " gave " << c); count("comparisons"); }
        else if (!(a.r.cls >= 4 && i == j)) { VF_CHECK(threw, "incomparable-compared", ab << " gave " << c); count("incomparable"); }
        const auto e = caught([&] {
            VF_CHECK(a.o.equals(b.o) == refEqual(a.r, b.r), "wrong-equality", ab); lt[i][j] = a.o < b.o; VF_CHECK((a.o > b.o) == (b.o < a.o), "less-and-greater-disagree", ab);
            if (refComparable(a.r, b.r)) VF_CHECK(bool(lt[i][j]) == (refCompare(a.r, b.r) < 0), "wrong-order", ab << " operator<");
            if (a.o.type() == b.o.type() && refEqual(a.r, b.r)) { VF_CHECK(a.o.hashCode() == b.o.hashCode(), "equal-values-hash-differently", ab); count("equal_hashes"); } });
        VF_CHECK(e.empty(), "query-threw", ab << ": " << e);
    }
    for (size_t i = 0; i < n; i++) { VF_CHECK(!lt[i][i], "order-reflexive", p[i].text); for (size_t j = 0; j < n; j++) { VF_CHECK(!(lt[i][j] && lt[j][i]), "order-symmetric", p[i].text << " and " << p[j].text); VF_CHECK(i == j || lt[i][j] || lt[j][i] || refEqual(p[i].r, p[j].r) || (p[i].r.cls >= 3 && p[j].r.cls >= 3), "order-not-total", p[i].text << " and " << p[j].text);
        for (size_t k = 0; k < n; k++) { if (lt[i][j] && lt[j][k] && !lt[i][k]) violation("order-not-transitive", p[i].text + " < " + p[j].text + " < " + p[k].text); if (!lt[i][j] && !lt[j][i] && !lt[j][k] && !lt[k][j] && (lt[i][k] || lt[k][i])) violation("equivalence-not-transitive", p[i].text + ", " + p[j].text + ", " + p[k].text); } } }
    count("triples", n * n * n);
    //containers keyed by these objects
    ObjectSet s; ObjectMap m; std::vector<Item> keys; std::map<size_t, int> val;
    for (size_t i = 0; i < n; i++)
    {
        bool have = false; for (auto &k : keys) if (refEqual(k.r, p[i].r)) have = true; const bool ins = s.insert(p[i].o).second; VF_CHECK(ins == !have, ins ? "set-holds-duplicate" : "set-lost-insert", p[i].text << " into " << keys.size() << ": " << sig); if (!have) keys.push_back(p[i]); m[p[i].o] = Object(int(i));
        if (r.chance(1, 6) && !keys.empty()) { const size_t q = r.below(keys.size()); VF_CHECK(s.erase(keys[q].o) == 1 && m.erase(keys[q].o) == 1, "set-lookup", "erase of " << keys[q].text); keys.erase(keys.begin() + q); }
    }
    VF_CHECK(s.size() == keys.size() && m.size() == keys.size(), "set-size", s.size() << "," << m.size() << " of " << keys.size() << ": " << sig);
    for (auto &x : p) { bool have = false; for (auto &k : keys) if (refEqual(k.r, x.r)) have = true; VF_CHECK(s.count(x.o) == size_t(have) && m.count(x.o) == size_t(have), "set-lookup", x.text << " in " << sig); count("lookups"); }
    const Object *prev = nullptr; for (auto &o : s) { if (prev) VF_CHECK(*prev < o, "set-order", sig); prev = &o; }
    //a hash or a comparison does not depend on how the object came about
    for (auto &x : p)
    {
        if (!x.o || x.r.cls >= 5) continue; const Object copy = x.o; Object moved; { Object t = x.o; moved = std::move(t); } std::stringstream ss; x.o.serialize(ss); Object des; des.deserialize(ss);
        for (auto *y : {&copy, (const Object *)&moved, (const Object *)&des}) { VF_CHECK(y->hashCode() == x.o.hashCode(), "hash-depends-on-history", x.text); VF_CHECK(y->equals(x.o) && x.o.equals(*y), "equality-depends-on-history", x.text); }
        count("rebuilt");
    }
    distinct(sig); sample(sig);
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"coherent", coherentCase}}); }
