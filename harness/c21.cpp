// C21: expression evaluation gives the mathematical value or a clean error
#include "vfp.hpp"
#include <Pothos/Util/EvalEnvironment.hpp>
#include <Pothos/Proxy.hpp>
#include <thread>
#include <atomic>
#include <cmath>
using namespace vf; using namespace Pothos; typedef std::complex<double> C; typedef Util::EvalEnvironment Env;

//! the reference value of an expression
struct V { char k; C n; double mag; bool b; std::string s; std::vector<V> l; std::vector<std::pair<V, V>> m; };
static V num(C x, double mag = 0) { V v; v.k = 'n'; v.n = x; v.mag = std::max(mag, std::abs(x)); v.b = false; return v; }
static V boolean(bool b) { V v; v.k = 'b'; v.b = b; v.mag = 0; return v; }
static V str(const std::string &s) { V v; v.k = 's'; v.s = s; v.mag = 0; v.b = false; return v; }
static bool same(const Object &o, const V &v);
static bool numIs(const Object &o, C &x)
{
    if (o.type() == typeid(long)) x = double(o.extract<long>()); else if (o.type() == typeid(long long)) x = double(o.extract<long long>()); else if (o.type() == typeid(double)) x = o.extract<double>(); else if (o.type() == typeid(C)) x = o.extract<C>(); else return false; return true;
}
static bool same(const Object &o, const V &v)
{
    if (o.type() == typeid(Proxy)) return same(o.extract<Proxy>().toObject(), v);
    switch (v.k)
    {
    case 'b': return o.type() == typeid(bool) && o.extract<bool>() == v.b;
    case 's': return o.type() == typeid(std::string) && o.extract<std::string>() == v.s;
    case 'n': { C x; return numIs(o, x) && std::abs(x - v.n) <= 1e-9 * v.mag; }
    case 'l': { if (o.type() != typeid(ProxyVector)) return false; const auto &p = o.extract<ProxyVector>(); if (p.size() != v.l.size()) return false; for (size_t i = 0; i < p.size(); i++) if (!same(p[i].toObject(), v.l[i])) return false; return true; }
    default:
        if (o.type() != typeid(ProxyMap)) return false; const auto &p = o.extract<ProxyMap>(); if (p.size() != v.m.size()) return false;
        for (auto &kv : p) { bool hit = false; for (auto &e : v.m) if (same(kv.first.toObject(), e.first) && same(kv.second.toObject(), e.second)) { hit = true; break; } if (!hit) return false; } return true; //(keys may be close to each other)
    }
}
static std::string show(const V &v)
{
    std::ostringstream o; o.precision(17);
    switch (v.k) { case 'b': o << (v.b ? "true" : "false"); break; case 's': o << '"' << v.s << '"'; break; case 'n': o << v.n.real(); if (v.n.imag() != 0) o << "+" << v.n.imag() << "j"; break; case 'l': o << "["; for (auto &e : v.l) o << show(e) << ", "; o << "]"; break; default: o << "{"; for (auto &e : v.m) o << show(e.first) << ":" << show(e.second) << ", "; o << "}"; } return o.str();
}

struct E { std::string t; V v; int prec; }; //text, value, binding strength of its outermost operator (9: atom)
struct Gen
{
    Rng &r; std::map<std::string, V> consts; //registered constants
    explicit Gen(Rng &r) : r(r) {}
    std::string sp(void) { static const char *s[] = {"", "", "", " ", "  ", " "}; return s[r.below(6)]; }
    std::string par(const E &e, int need) { if (e.prec < need || r.chance(1, 8)) return "(" + sp() + e.t + sp() + ")"; return e.t; }
    E atom(const std::string &t, const V &v) { return E{t, v, 9}; }
    bool pick(char kind, std::string &name) { std::vector<std::string> c; for (auto &p : consts) if (p.second.k == kind) c.push_back(p.first); if (c.empty()) return false; name = c[r.below(c.size())]; return true; }
    std::string quoted(const std::string &s) { std::string q = "\""; for (char c : s) { if (c == '"' || c == '\\') q += '\\'; if (c == '\n') q += "\\n"; else if (c == '\t') q += "\\t"; else q += c; } return q + "\""; }
    std::string text(void) { static const std::string al = "abcXYZ019 ,:[]{}()\"\\+-*/?_\n\t"; std::string s; for (unsigned n = unsigned(r.below(7)); n; n--) s += al[r.below(al.size())]; return s; }
    //! whole numbers, exact
    E whole(int d)
    {
        std::string c; if (d > 0 && r.chance(1, 2))
        {
            E a = whole(d - 1), b = whole(d - 1); const double x = a.v.n.real(), y = b.v.n.real();
            switch (r.below(9))
            {
            case 0: return E{par(a, 4) + sp() + "+" + sp() + par(b, 5), num(x + y, a.v.mag + b.v.mag), 4};
            case 1: return E{par(a, 4) + sp() + "-" + sp() + par(b, 5), num(x - y, a.v.mag + b.v.mag), 4};
            case 2: if (std::abs(x * y) < 1e12) return E{par(a, 5) + sp() + "*" + sp() + par(b, 6), num(x * y, a.v.mag * b.v.mag), 5}; break;
            case 3: { const int n = int(r.below(4)); if (std::abs(std::pow(x, n)) < 1e12) return E{par(a, 8) + sp() + "^" + sp() + std::to_string(n), num(std::pow(x, n)), 7}; break; }
            case 4: return atom("max(" + sp() + a.t + sp() + "," + sp() + b.t + ")", num(std::max(x, y), std::max(a.v.mag, b.v.mag)));
            case 5: return atom("min(" + a.t + sp() + "," + b.t + sp() + ")", num(std::min(x, y), std::max(a.v.mag, b.v.mag)));
            case 6: return atom("sum(" + a.t + "," + b.t + "," + sp() + a.t + ")", num(x + y + x, a.v.mag * 2 + b.v.mag));
            case 7: { E q = truth(d - 1); return atom("(" + par(q, 9) + sp() + "?" + sp() + par(a, 4) + sp() + ":" + sp() + par(b, 4) + ")", q.v.b ? a.v : b.v); }
            default: return E{"-" + par(a, 8), num(-x, a.v.mag), 1};
            }
        }
        const uint64_t n = r.chance(1, 6) ? r.below(4294967296ull) : r.below(300); std::ostringstream o;
        switch (r.below(9))
        {
        case 0: o << (r.flip() ? "0x" : "0x") << std::hex << n; break;
        case 1: o << "0o" << std::oct << n; break;
        case 2: { std::string b; uint64_t k = n % 65536; do { b.insert(b.begin(), char('0' + (k & 1))); k >>= 1; } while (k); return atom("0b" + b, num(double(n % 65536))); }
        case 3: if (pick('w', c)) return atom(c, num(consts[c].n)); o << n; break;
        case 4: { std::string s = text(); return atom("strlen(" + quoted(s) + ")", num(double(s.size()))); }
        case 5: o << n % 1000 << "e" << r.below(4); { double x = 0; std::stringstream(o.str()) >> x; return atom(o.str(), num(x)); }
        case 6: if (r.chance(1, 3)) { o << n % 1000 << (r.flip() ? "k" : "M"); return atom(o.str(), num(double(n % 1000) * (o.str().back() == 'k' ? 1e3 : 1e6))); } o << n; break;
        default: o << n;
        }
        return atom(o.str(), num(double(n)));
    }
    //! real or complex numbers
    E number(int d)
    {
        std::string c; if (d > 0 && r.chance(2, 3))
        {
            E a = number(d - 1), b = number(d - 1); const C x = a.v.n, y = b.v.n; const double m = a.v.mag + b.v.mag; const bool re = x.imag() == 0 && y.imag() == 0;
            switch (r.below(12))
            {
            case 0: return E{par(a, 4) + sp() + "+" + sp() + par(b, 5), num(x + y, m), 4};
            case 1: return E{par(a, 4) + sp() + "-" + sp() + par(b, 5), num(x - y, m), 4};
            case 2: if (std::abs(x * y) < 1e100) return E{par(a, 5) + sp() + "*" + sp() + par(b, 6), num(x * y, a.v.mag * b.v.mag), 5}; break;
            case 3: if (std::abs(y) > 1e-3 && std::abs(y) > 1e-6 * b.v.mag) return E{par(a, 5) + sp() + "/" + sp() + par(b, 6), num(x / y, m / std::abs(y) * (1 + b.v.mag / std::abs(y))), 5}; break;
            case 4: if (re && a.v.mag < 1e3) return atom("sin(" + sp() + a.t + sp() + ")", num(std::sin(x.real()), 1 + m)); break;
            case 5: if (re && a.v.mag < 20) return atom("exp(" + a.t + ")", num(std::exp(x.real()), std::exp(m))); break;
            case 6: if (re && x.real() > 1e-3) return atom("sqrt(" + a.t + sp() + ")", num(std::sqrt(x.real()), 1 + m)); break;
            case 7: if (re) return atom("max(" + a.t + "," + sp() + b.t + ")", num(std::max(x.real(), y.real()), m)); break;
            case 8: return atom((r.flip() ? "real(" : "imag(") + a.t + ")", num(0, m)).t[0] == 'r' ? atom("real(" + a.t + ")", num(x.real(), m)) : atom("imag(" + a.t + ")", num(x.imag(), m));
            case 9: return atom("conj(" + a.t + ")", num(std::conj(x), m));
            case 10: { E q = truth(d - 1); return atom("(" + par(q, 9) + "?" + sp() + par(a, 4) + sp() + ":" + sp() + par(b, 4) + ")", q.v.b ? a.v : b.v); }
            default: return E{"-" + par(a, 8), num(-x, m), 1};
            }
        }
        switch (r.below(7))
        {
        case 0: { std::ostringstream o; o << r.below(1000) << "." << r.below(100000); double x = 0; std::stringstream(o.str()) >> x; return atom(o.str(), num(x)); }
        case 1: { std::ostringstream o; o << "." << 1 + r.below(99) << "e" << r.range(-6, 6); double x = 0; std::stringstream(o.str()) >> x; return atom(o.str(), num(x)); }
        case 2: return atom(r.flip() ? "j" : "i", num(C(0, 1)));
        case 3: return r.flip() ? atom("pi", num(M_PI)) : atom("e", num(std::exp(1.0)));
        case 4: if (pick('n', c)) return atom(c, consts[c]); return whole(0);
        default: return whole(d > 0 ? d - 1 : 0);
        }
    }
    E truth(int d)
    {
        std::string c; if (d > 0) switch (r.below(9))
        {
        case 0: { E a = truth(d - 1), b = truth(d - 1); return E{par(a, 9) + sp() + (r.flip() ? "&&" : " and ") + sp() + par(b, 9), boolean(a.v.b && b.v.b), 1}; }
        case 1: { E a = truth(d - 1), b = truth(d - 1); return E{par(a, 9) + sp() + (r.flip() ? "||" : " or ") + sp() + par(b, 9), boolean(a.v.b || b.v.b), 1}; }
        case 2: case 3: { E a = whole(d - 1), b = r.chance(1, 3) ? a : whole(d - 1); const double x = a.v.n.real(), y = b.v.n.real(); static const char *ops[] = {"<", "<=", ">", ">=", "==", "!="}; const unsigned k = unsigned(r.below(6)); const bool v[] = {x < y, x <= y, x > y, x >= y, x == y, x != y}; return E{par(a, 9) + sp() + ops[k] + sp() + par(b, 9), boolean(v[k]), 1}; }
        case 4: { E a = string(d - 1), b = r.flip() ? a : string(d - 1); const bool eq = r.flip(); return E{par(a, 9) + sp() + (eq ? "==" : "!=") + sp() + par(b, 9), boolean((a.v.s == b.v.s) == eq), 1}; }
        case 5: { const unsigned n = 1 + unsigned(r.below(3)); E a = numbers(d - 1, n), b = r.flip() ? a : numbers(d - 1, n); if (a.v.l[0].n == b.v.l[0].n) b = a; const bool eq = a.v.l[0].n == b.v.l[0].n; /*the parser library compares the first column only*/ return E{a.t + sp() + "==" + sp() + b.t, boolean(eq), 1}; }
        default: break;
        }
        if (r.chance(1, 4) && pick('b', c)) return atom(c, consts[c]);
        static const char *t[] = {"true", "True", "false", "False"}; const unsigned k = unsigned(r.below(4)); return atom(t[k], boolean(k < 2));
    }
    E string(int d)
    {
        std::string c; if (d > 0 && r.chance(1, 3)) { E a = string(d - 1), b = string(d - 1); switch (r.below(3)) { case 0: return E{par(a, 9) + sp() + "//" + sp() + par(b, 9), str(a.v.s + b.v.s), 1}; case 1: { std::string u = a.v.s; for (auto &x : u) x = char(std::toupper(x)); return atom("toupper(" + a.t + ")", str(u)); } default: { E q = truth(d - 1); return atom("(" + par(q, 9) + sp() + "?" + sp() + par(a, 9) + sp() + ":" + sp() + par(b, 9) + ")", q.v.b ? a.v : b.v); } } }
        if (r.chance(1, 4) && pick('s', c)) return atom(c, consts[c]); const auto s = text(); return atom(quoted(s), str(s));
    }
    //! a list of n whole numbers given literally
    E numbers(int d, unsigned n)
    {
        V v; v.k = 'l'; v.mag = 0; v.b = false; std::string t = "[" + sp(); for (unsigned i = 0; i < n; i++) { E e = whole(d > 0 ? d - 1 : 0); t += (i ? "," + sp() : "") + e.t + sp(); v.l.push_back(e.v); } if (n && r.chance(1, 5)) t += "," + sp(); return atom(t + "]", v);
    }
    //! arithmetic on lists of whole numbers
    E listMath(int d, unsigned n)
    {
        std::string c; if (d > 0 && r.chance(1, 2))
        {
            E a = listMath(d - 1, n), b = listMath(d - 1, n), w = whole(0); E o = a; o.prec = 4;
            switch (r.below(4))
            {
            case 0: for (unsigned i = 0; i < n; i++) o.v.l[i] = num(a.v.l[i].n + b.v.l[i].n, a.v.l[i].mag + b.v.l[i].mag); o.t = par(a, 4) + sp() + "+" + sp() + par(b, 5); return o;
            case 1: for (unsigned i = 0; i < n; i++) o.v.l[i] = num(a.v.l[i].n - b.v.l[i].n, a.v.l[i].mag + b.v.l[i].mag); o.t = par(a, 4) + sp() + "-" + sp() + par(b, 5); return o;
            case 2: { E q = truth(d - 1); o.t = "(" + par(q, 9) + sp() + "?" + sp() + par(a, 9) + sp() + ":" + sp() + par(b, 9) + ")"; o.v = q.v.b ? a.v : b.v; o.prec = 9; return o; }
            default: for (unsigned i = 0; i < n; i++) o.v.l[i] = num(a.v.l[i].n * w.v.n, a.v.l[i].mag * w.v.mag); o.t = r.flip() ? par(w, 9) + sp() + "*" + sp() + par(a, 9) : par(a, 9) + sp() + "*" + sp() + par(w, 9); o.prec = 5; return o;
            }
        }
        if (r.chance(1, 4) && pick('l', c) && consts[c].l.size() == n) return atom(c, consts[c]); return numbers(d, n);
    }
    E any(int d)
    {
        switch (r.below(d > 0 ? 9 : 5))
        {
        case 0: return whole(d); case 1: return number(d); case 2: return truth(d); case 3: return string(d);
        case 4: { std::string c; if (pick(r.flip() ? 'L' : 'M', c)) return atom(c, consts[c]); return whole(d); }
        case 5: return listMath(d, 2 + unsigned(r.below(3)));
        case 6: case 7: { V v; v.k = 'l'; v.mag = 0; v.b = false; std::string t = "[" + sp(); const unsigned n = unsigned(r.below(5)); for (unsigned i = 0; i < n; i++) { E e = any(d - 1); t += (i ? "," + sp() : "") + e.t + sp(); v.l.push_back(e.v); } if (n && r.chance(1, 6)) t += ", "; return atom(t + "]", v); }
        default: { V v; v.k = 'm'; v.mag = 0; v.b = false; std::string t = "{" + sp(); const unsigned n = unsigned(r.below(4)); std::set<std::string> seen; for (unsigned i = 0; i < n; i++) { E k = r.flip() ? string(0) : whole(1); if (!seen.insert(show(k.v)).second) continue; E e = any(d - 1); t += (v.m.empty() ? "" : "," + sp()) + par(k, 9) + sp() + ":" + sp() + par(e, 2) + sp(); v.m.emplace_back(k.v, e.v); } return atom(t + "}", v); }
        }
    }
};
static V kindAs(V v, char k) { v.k = k; return v; }
static V constV(const V &v, char pickKind) { return kindAs(v, pickKind); }

//! lists/maps/whole constants are offered to the generator under their own pick kinds
struct Model { std::map<std::string, V> consts; };
static V unpick(const V &v) { V o = v; if (o.k == 'w') o.k = 'n'; if (o.k == 'L') o.k = 'l'; if (o.k == 'M') o.k = 'm'; return o; }
static void fix(V &v) { v = unpick(v); for (auto &e : v.l) fix(e); for (auto &e : v.m) fix(e.second); }

static void evalOne(Env &env, const E &e, const char *what)
{
    Object o; const auto err = caught([&]{ o = env.eval(e.t); }); VF_CHECK(err.empty(), std::string(what) + "-rejected", e.t << " : " << err); if (err.empty()) VF_CHECK(same(o, e.v), std::string(what) + "-value", e.t << " = " << o.toString() << " expected " << show(e.v)); count("values");
}
static void exprCase(Rng &r, uint64_t c)
{
    Env env; std::string sig; for (int k = 0; k < 12; k++) { Gen g(r); E e = g.any(1 + int(r.below(4))); fix(e.v); if (r.chance(1, 4)) e.t = g.sp() + e.t + g.sp(); evalOne(env, e, "expression"); sig += e.t; if (c < 3 && k == 0) sample(e.t + " = " + show(e.v)); if (e.v.k == 'l' || e.v.k == 'm') count("containers"); if (e.t.find('"') != std::string::npos) count("with_strings"); } distinct(sig);
}
//! registered constants: what they were last given, under a history of changes and failing evaluations
static Object constObj(Rng &r, V &v, char &kind)
{
    switch (r.below(13))
    {
    case 0: { int x = int(r.range(-1000, 1000)); v = num(double(x)); kind = 'w'; return Object(x); }
    case 1: { unsigned x = unsigned(r.below(4294967296ull)); v = num(double(x)); kind = 'w'; return Object(x); }
    case 2: { unsigned long long x = r.flip() ? r.next() : r.below(100); v = num(double(x)); kind = 'n'; return Object(x); }
    case 3: { short x = short(r.range(-30000, 30000)); v = num(x); kind = 'w'; return Object(x); }
    case 4: { float x = float(r.range(-1000, 1000)) / 8; v = num(x); kind = 'n'; return Object(x); }
    case 5: { double x = double(r.range(-1000000, 1000000)) / 7; v = num(x); kind = 'n'; return Object(x); }
    case 6: { C x(double(r.range(-9, 9)), double(r.range(1, 9))); v = num(x); kind = 'n'; return Object(x); }
    case 7: { bool b = r.flip(); v = boolean(b); kind = 'b'; return Object(b); }
    case 8: { Gen g(r); const auto s = g.text(); v = str(s); kind = 's'; return Object(s); }
    case 9: { std::vector<int> x; v.k = 'l'; v.l.clear(); for (unsigned n = 2 + unsigned(r.below(3)); n; n--) { x.push_back(int(r.range(-50, 50))); v.l.push_back(num(double(x.back()))); } kind = 'l'; return Object(x); }
    case 10: { std::vector<std::string> x; Gen g(r); v.k = 'l'; v.l.clear(); for (unsigned n = unsigned(r.below(4)); n; n--) { x.push_back(g.text()); v.l.push_back(str(x.back())); } kind = 'L'; return Object(x); }
    case 11: { ObjectMap x; v.k = 'm'; v.m.clear(); for (unsigned n = unsigned(r.below(4)); n; n--) { x[Object("k" + std::to_string(n))] = Object(int(n)); v.m.emplace_back(str("k" + std::to_string(n)), num(n)); } kind = 'M'; return Object(x); }
    default: { long long x = (long long)(r.range(-4000000000000ll, 4000000000000ll)); v = num(double(x)); kind = 'w'; return Object(x); }
    }
}
static std::string garble(Rng &r, std::string t)
{
    static const std::string al = "0123456789[]{}()\",:?\\+-*/^<>=&|!.eEjxoab _'\t%@;~$"; for (unsigned n = 1 + unsigned(r.below(4)); n; n--)
    {
        const size_t at = t.empty() ? 0 : r.below(t.size()); switch (r.below(6)) { case 0: if (!t.empty()) t.erase(at, 1); break; case 1: t.insert(at, 1, al[r.below(al.size())]); break; case 2: if (!t.empty()) t[at] = al[r.below(al.size())]; break; case 3: t = t.substr(0, at); break; case 4: t = t.substr(at); break; default: { const size_t l = r.below(t.size() - at + 1); t.insert(r.below(t.size() + 1), t.substr(at, l)); } }
    } return t;
}
static void historyCase(Rng &r, uint64_t c)
{
    Env env; std::map<std::string, V> m; std::string sig; const V knownV = num(42); static const char *names[] = {"vfa", "vfb", "vf_c1", "vfD", "vfe2", "vff", "vfg", "vfh"};
    for (int k = 0; k < 40; k++)
    {
        Gen g(r); g.consts = m; const std::string n = names[r.below(8)];
        switch (r.below(7))
        {
        case 0: case 1: { V v; v.mag = 0; v.b = false; char kind; const Object o = constObj(r, v, kind); const auto err = caught([&]{ env.registerConstantObj(n, o); }); VF_CHECK(err.empty(), "constant-rejected", o.toString() << " " << err); if (v.k == 'n') v.mag = std::abs(v.n); m[n] = constV(v, kind); count("constants"); break; }
        case 2: { E e = g.any(2); V x = e.v; fix(x); const auto err = caught([&]{ env.registerConstantExpr(n, e.t); }); VF_CHECK(err.empty(), "constant-rejected", e.t << " " << err); m[n] = x; if (x.k == 'l') m[n].k = 'L'; if (x.k == 'm') m[n].k = 'M'; count("constants"); break; }
        case 3: { const auto err = caught([&]{ env.unregisterConstant(n); }); VF_CHECK(err.empty(), "unregister", err); if (m.erase(n)) count("unregistered"); Object o; VF_CHECK(!caught([&]{ o = env.eval(n + " "); }).empty(), "unregistered-used", n << " = " << o.toString()); break; }
        case 4: { E e = g.any(3); const auto t = garble(r, e.t); try { env.eval(t); count("odd_accepted"); } catch (const Exception &) { count("odd_rejected"); } catch (const std::exception &ex) { violation("error-type", t + " " + ex.what()); } break; }
        case 5: { std::vector<std::string> u; for (auto &x : names) if (!m.count(x)) u.push_back(x); if (u.empty()) break; E e = g.any(1); Object o; const std::string t = "[" + e.t + "," + u[r.below(u.size())] + "]"; VF_CHECK(!caught([&]{ o = env.eval(t); }).empty(), "unknown-name-accepted", t << " = " << o.toString()); count("unknown_names"); break; }
        default: { E e = g.any(3); fix(e.v); evalOne(env, e, "history"); sig += e.t; }
        }
        if (r.chance(1, 4)) for (auto &p : m) { E e{p.first, unpick(p.second), 9}; fix(e.v); evalOne(env, e, "constant"); }
    }
    distinct(sig); if (c < 1) sample("40-step history ending with " + std::to_string(m.size()) + " constants");
}
//! any text: a value or a library exception, and the environment still works
static void hostileCase(Rng &r, uint64_t c)
{
    Env env; env.registerConstantExpr("vfk", "[1, 2]"); std::string sig;
    for (int k = 0; k < 30; k++)
    {
        Gen g(r); std::string t; const unsigned kind = unsigned(r.below(7)); bool mustThrow = false;
        if (kind < 2) t = garble(r, g.any(3).t);
        else if (kind == 2) { static const char *tk[] = {"1", "2.5", "0x", "0b2", "0o8", "0o", "\"", "\"a\"", "\\", "[", "]", "{", "}", "(", ")", ",", ":", "?", "+", "-", "*", "/", "^", "&&", "||", "!", "==", "<", "sin", "max", "true", "j", "pi", "size", " ", "//", "%", "=", "k", "'", "_", "\xc3\xa9", "strlen", "\"__map__\"", "1e", "1e400", "99999999999999999999", "__tmp__0", "__map__", "vfk", "\xff", "->", ">>"}; for (unsigned n = 1 + unsigned(r.below(14)); n; n--) t += tk[r.below(sizeof(tk) / sizeof(*tk))]; }
        else if (kind == 6) //operands and operators in any order
        {
            static const char *tk[] = {"true", "true ", "1", "\"a\"", "[1]", "vfk", "(", "(", ")", ")", "&&", "||", " and ", " or ", "and", "&& ", "==", "<", "+", "-", "*", "?", ":", ","};
            if (r.flip()) t = "true "; for (unsigned n = 2 + unsigned(r.below(7)); n; n--) t += tk[r.below(sizeof(tk) / sizeof(*tk))]; count("operator_orders");
        }
        else if (kind == 3) { for (unsigned n = unsigned(r.below(40)); n; n--) t += char(1 + r.below(255)); }
        else if (kind == 4)
        { //one bracket too few or too many, outside of strings
            E e = g.listMath(2, 2); std::vector<size_t> at; bool q = false; for (size_t i = 0; i < e.t.size(); i++) { if (e.t[i] == '"' && (i == 0 || e.t[i - 1] != '\\')) q = !q; if (!q && std::string("[](){}").find(e.t[i]) != std::string::npos) at.push_back(i); }
            t = e.t; if (t.find('"') == std::string::npos && !at.empty()) { const size_t p = at[r.below(at.size())]; if (r.flip()) t.erase(p, 1); else t.insert(p, 1, t[p]); mustThrow = true; const auto u = [](const std::string &s){ return std::count(s.begin(), s.end(), '(') != std::count(s.begin(), s.end(), ')') || std::count(s.begin(), s.end(), '[') != std::count(s.begin(), s.end(), ']'); }; mustThrow = u(t); }
        }
        else { const unsigned n = 1 + unsigned(r.below(200)); const char *o[] = {"[", "{", "(", "{1:", "[1,"}; const char *cl[] = {"]", "}", ")", "}", "]"}; std::vector<int> st; for (unsigned i = 0; i < n; i++) { st.push_back(int(r.below(5))); t += o[st.back()]; } t += "1"; while (!st.empty()) { if (r.chance(60, 61)) t += cl[st.back()]; st.pop_back(); } }
        bool threw = false; std::string val; try { val = env.eval(t).toString(); count("accepted"); } catch (const Exception &) { threw = true; count("rejected"); } catch (const std::exception &ex) { violation("error-type", t + " " + ex.what()); }
        if (mustThrow) { VF_CHECK(threw, "malformed-accepted", t << " = " << val); count("unbalanced"); }
        if (r.chance(1, 4)) { E e = g.any(3); fix(e.v); evalOne(env, e, "after-odd-text"); Object o; VF_CHECK(caught([&]{ o = env.eval("3*vfk"); }).empty() && o.toString() == "[3, 6]", "after-odd-text-value", t << " : 3*vfk = " << o.toString()); }
        sig += t; if (c < 2 && k < 2) sample((threw ? "rejected " : "accepted ") + t.substr(0, 60));
    }
    distinct(sig); static const char *empties[] = {"", " ", "\t \n"}; VF_CHECK(!caught([&]{ env.eval(empties[r.below(3)]); }).empty(), "malformed-accepted", "empty text");
}
//! threads share an environment, each with its own constant
static void mtCase(Rng &r, uint64_t c)
{
    Env env; const unsigned nt = 2 + unsigned(r.below(3)); struct T { std::vector<E> es; std::vector<std::string> bad; }; std::vector<T> ts(nt); env.registerConstantExpr("vfs", "[5, 6]"); std::string sig;
    for (auto &t : ts) for (int k = 0; k < 10; k++) { Gen g(r); E e = r.flip() ? g.listMath(3, 2) : g.any(3); fix(e.v); sig += e.t; t.es.push_back(e); }
    std::vector<std::thread> th; for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i]
    {
        const std::string me = "vft" + std::to_string(i); int n = 0; for (auto &e : ts[i].es)
        {
            try { Object o = env.eval(e.t); if (!same(o, e.v)) ts[i].bad.push_back(e.t + " = " + o.toString() + " expected " + show(e.v)); env.registerConstantObj(me, Object(++n)); o = env.eval("[" + me + ", 1] + vfs"); V want; want.k = 'l'; want.l = {num(5 + n), num(7)}; if (!same(o, want)) ts[i].bad.push_back("[" + me + ", 1] + vfs = " + o.toString() + " with " + std::to_string(n)); if (n % 3 == 0) { env.unregisterConstant(me); try { env.eval(me); ts[i].bad.push_back(me + " evaluated after unregister"); } catch (const Exception &) {} } }
            catch (const Exception &ex) { ts[i].bad.push_back(e.t + " : " + ex.displayText()); }
        }
    });
    for (auto &t : th) t.join(); for (auto &t : ts) for (auto &b : t.bad) violation("concurrent-value", b); count("concurrent_evals", nt * 20); distinct(sig); if (c < 1) sample(std::to_string(nt) + " threads; first evaluates " + ts[0].es[0].t);
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"expr", exprCase}, {"history", historyCase}, {"hostile", hostileCase}, {"mt", mtCase}}); }
