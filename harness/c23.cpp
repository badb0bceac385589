// C23: data types and typed buffers
#include "vfp.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Poco/String.h>
#include <dirent.h>
#include <fstream>
#include <unistd.h>
using namespace vf; using namespace Pothos;

struct Kind { const char *name; unsigned size; bool cplx, flt, integer, sign; std::vector<std::string> spellings; std::vector<const std::type_info *> types; };
static const std::vector<Kind> &kinds(void)
{
#define T_(x) &typeid(x)
    static const std::vector<Kind> k = {
        {"int8", 1, false, false, true, true, {"int8", "sint8", "char", "schar", "byte", "octet"}, {T_(char), T_(signed char)}}, {"uint8", 1, false, false, true, false, {"uint8", "uchar"}, {T_(unsigned char)}},
        {"int16", 2, false, false, true, true, {"int16", "sint16", "short", "sshort"}, {T_(short)}}, {"uint16", 2, false, false, true, false, {"uint16", "ushort"}, {T_(unsigned short)}},
        {"int32", 4, false, false, true, true, {"int32", "sint32", "int", "sint"}, {T_(int)}}, {"uint32", 4, false, false, true, false, {"uint32", "uint"}, {T_(unsigned)}},
        {"int64", 8, false, false, true, true, {"int64", "sint64", "long", "slong", "long long", "longlong", "llong"}, {T_(long), T_(long long)}}, {"uint64", 8, false, false, true, false, {"uint64", "ulong", "ulonglong", "ullong"}, {T_(unsigned long), T_(unsigned long long)}},
        {"float32", 4, false, true, false, false, {"float32", "float"}, {T_(float)}}, {"float64", 8, false, true, false, false, {"float64", "double"}, {T_(double)}},
        {"complex_int8", 2, true, false, true, true, {"complex_int8", "complex_sint8"}, {T_(std::complex<signed char>), T_(std::complex<char>)}}, {"complex_uint8", 2, true, false, true, false, {"complex_uint8"}, {T_(std::complex<unsigned char>)}},
        {"complex_int16", 4, true, false, true, true, {"complex_int16", "complex_sint16"}, {T_(std::complex<short>)}}, {"complex_uint16", 4, true, false, true, false, {"complex_uint16"}, {T_(std::complex<unsigned short>)}},
        {"complex_int32", 8, true, false, true, true, {"complex_int32", "complex_sint32"}, {T_(std::complex<int>)}}, {"complex_uint32", 8, true, false, true, false, {"complex_uint32"}, {T_(std::complex<unsigned>)}},
        {"complex_int64", 16, true, false, true, true, {"complex_int64", "complex_sint64"}, {T_(std::complex<long>), T_(std::complex<long long>)}}, {"complex_uint64", 16, true, false, true, false, {"complex_uint64"}, {T_(std::complex<unsigned long long>)}},
        {"complex_float32", 8, true, true, false, false, {"complex_float32", "complex64"}, {T_(std::complex<float>)}}, {"complex_float64", 16, true, true, false, false, {"complex_float64", "complex128"}, {T_(std::complex<double>)}},
        {"custom", 1, false, false, false, false, {"custom"}, {}}, {"unspecified", 1, false, false, false, false, {"unspecified", ""}, {}}};
#undef T_
    return k;
}
static std::string mixCase(Rng &r, std::string s) { if (r.flip()) for (auto &c : s) if (r.flip()) c = char(toupper(c)); return s; }
static std::string sp(Rng &r) { std::string s; for (size_t n = r.chance(1, 2) ? 0 : r.below(4); n; n--) s += " \t\n"[r.below(3)]; return s; }
static size_t randDim(Rng &r) { return size_t(r.chance(1, 2) ? 1 : r.chance(1, 10) ? r.below(1u << 31) : r.range(1, 2000)); }
static void same(const DType &a, const DType &b, const std::string &how) { VF_CHECK(a == b && !(a != b) && a.size() == b.size() && a.name() == b.name() && a.dimension() == b.dimension() && a.elemType() == b.elemType() && a.elemSize() == b.elemSize(), "spelling", how << ": " << a.toString() << " vs " << b.toString()); count("spellings"); }
static void typeCase(Rng &r, uint64_t c)
{
    const auto &k = kinds()[c % kinds().size()]; const size_t dim = randDim(r); const auto &spell = k.spellings[r.below(k.spellings.size())]; const std::string s = mixCase(r, spell); const DType d(s, dim); const std::string what = s + "x" + std::to_string(dim);
    VF_CHECK(d.name() == k.name, "name", what << " -> " << d.name()); VF_CHECK(d.dimension() == dim && d.elemSize() == k.size && d.size() == k.size * dim, "size", what << ": element " << int(d.elemSize()) << ", " << d.size()); VF_CHECK(d.isComplex() == k.cplx && d.isFloat() == k.flt && d.isInteger() == k.integer && d.isSigned() == k.sign && d.isCustom() == (std::string(k.name) == "custom") && bool(d) == (std::string(k.name) != "unspecified"), "attributes", what);
    const bool plain = dim == 1 && !d.isCustom(); VF_CHECK(d.toString() == (plain ? std::string(k.name) : std::string(k.name) + "[" + std::to_string(dim) + "]"), "print", d.toString());
    same(d, DType(d.toMarkup()), "toMarkup"); same(d, DType(d.toMarkup().c_str()), "toMarkup char*"); const std::string mk = sp(r) + s + sp(r) + "," + sp(r) + std::string(r.below(3), '0') + std::to_string(dim) + sp(r); same(d, DType(mk), mk); same(d, DType(mk.c_str()), mk); if (dim == 1) same(d, DType(s), s); same(d, DType::fromDType(DType(s), dim), "fromDType"); same(DType(s, 1), DType(s), "dimension 1"); for (auto t : k.types) same(d, DType(*t, dim), "typeid"); for (auto &o : k.spellings) same(d, DType(o, dim), o); same(d, Object(mk).convert<DType>(), "object"); { Proxy p = ProxyEnvironment::make("managed")->findProxy("Pothos/DType")(s, dim); same(d, p.convert<DType>(), "proxy"); VF_CHECK(p.call("size").convert<size_t>() == d.size() && p.call("toString").convert<std::string>() == d.toString(), "proxy", d.toString()); }
    DType cp(d), as; as = d; same(d, cp, "copy"); same(d, as, "assign");
    const auto &k2 = kinds()[r.below(kinds().size())]; const size_t dim2 = r.flip() ? dim : randDim(r); const DType e(k2.spellings[0], dim2); const bool eq = std::string(k.name) == k2.name && dim == dim2; VF_CHECK((d == e) == eq && (d != e) == !eq && (e == d) == eq, "equality", d.toString() << " " << e.toString()); count(eq ? "equal_pairs" : "unequal_pairs");
    //malformed
    static const char *bad[] = {"int33", "complex", "complex_", "complex_float", "floaty", "int 8", "int8 ", " int8", "int8;2", "int8[2]", "u", "sfloat32", "ufloat32", "complex_custom", "int8\n", "custom2", "unspecifiedx", "0", "int", "123"}; std::vector<std::string> m; for (auto b : bad) if (std::string(b) != "int") m.push_back(b); const std::string t = r.pick(m); static const char *bd[] = {"", " ", "x", "2x", "-1", "+2", "1.5", "0x10", "1 2", "2,3", "99999999999999999999999999", "1e3", "[3]", "-0", "two", "3;"};
    auto rejects = [&](const std::string &x) { std::string e; try { DType y(x); e = "accepted as " + y.toString(); } catch (const DTypeUnknownError &) {} catch (const std::exception &ex) { e = ex.what(); } VF_CHECK(e.empty(), "malformed", "'" << x << "' " << e); count("malformed_rejected"); }; rejects(t); if (Poco::trim(t) != "int8") rejects(t + "," + std::to_string(dim)); const std::string bdim = bd[r.below(sizeof(bd) / sizeof(bd[0]))]; rejects(s + "," + bdim); if (r.flip()) { auto g = s; g.insert(r.below(g.size() + 1), 1, "#@!%"[r.below(4)]); rejects(g); }
    auto ti = caught([&]{ DType y(typeid(std::string)); }); VF_CHECK(!ti.empty(), "malformed", "typeid(string) accepted"); distinct(mk); if (c < 2) sample("'" + mk + "' is " + d.toString());
}
static void typeSkip(Rng &r, uint64_t c) { typeCase(r, c); }

//------------------------------------------------------------------ chunks: every chunk claims a byte range of a block of memory; the model keeps the bytes
struct Mem { SharedBuffer b; std::string bytes; }; //bytes: content model of the whole shared buffer
struct Chk { BufferChunk c; int mem; size_t off; }; //mem -1: null
static void chunkCase(Rng &r, uint64_t c)
{
    std::vector<Mem> mems; std::vector<Chk> cs; std::string sig; auto fill = [&](Mem &m) { m.bytes.resize(m.b.getLength()); for (size_t i = 0; i < m.bytes.size(); i++) { m.bytes[i] = char(r.next()); ((char *)m.b.getAddress())[i] = m.bytes[i]; } };
    auto check = [&]{ std::map<const void *, size_t> users; for (auto &x : cs) if (x.mem >= 0) users[mems[size_t(x.mem)].b.getContainer().get()]++; for (auto &x : cs) { if (x.mem < 0) { VF_CHECK(!x.c && x.c.length == 0 && x.c.elements() == 0 && x.c.address == 0, "null-chunk", ""); continue; } const auto &m = mems[size_t(x.mem)]; VF_CHECK(bool(x.c) && x.c.address == m.b.getAddress() + x.off && x.c.getEnd() == x.c.address + x.c.length, "range", sig); VF_CHECK(memcmp(x.c.as<const void *>(), m.bytes.data() + x.off, x.c.length) == 0, "content", sig); VF_CHECK(x.c.elements() == x.c.length / x.c.dtype.size(), "elements", x.c.length << " / " << x.c.dtype.size()); VF_CHECK(x.c.getBuffer() == m.b || x.c.getBuffer().getContainer() == m.b.getContainer(), "memory", sig); count("chunks_checked"); } };
    auto add = [&](const BufferChunk &b, int mem, size_t off) { cs.push_back(Chk{b, mem, off}); };
    for (int k = 0, n = int(r.range(10, 40)); k < n; k++)
    {
        const unsigned op = cs.empty() ? 0 : unsigned(r.below(12)); Chk *x = cs.empty() ? nullptr : &cs[r.below(cs.size())]; sig += char('a' + op);
        switch (op)
        {
        case 0: { const auto d = randDType(r); const size_t e = r.below(40); BufferChunk b(d, e); VF_CHECK(b.length == d.size() * e && b.elements() == e && b.dtype == d && b.getBuffer().getLength() >= b.length, "construct", d.toString() << " x " << e); Mem m; m.b = b.getBuffer(); fill(m); mems.push_back(m); add(b, int(mems.size()) - 1, b.address - m.b.getAddress()); break; }
        case 1: { const size_t n2 = r.below(300); BufferChunk b(n2); VF_CHECK(b.length == n2 && !b.dtype && b.elements() == n2, "construct", n2); Mem m; m.b = b.getBuffer(); fill(m); mems.push_back(m); add(b, int(mems.size()) - 1, b.address - m.b.getAddress()); break; }
        case 2: { Mem m; m.b = SharedBuffer::make(size_t(r.range(1, 500))); fill(m); mems.push_back(m); const size_t L = m.b.getLength(), o = r.below(L), l = r.below(L - o + 1); SharedBuffer sub(m.b.getAddress() + o, l, m.b); const auto d = randDType(r); BufferChunk b(sub, d); VF_CHECK(b.length == l && b.address == m.b.getAddress() + o && b.dtype == d, "construct-sub", o << "+" << l); add(b, int(mems.size()) - 1, o);
            auto e = caught([&]{ SharedBuffer y(m.b.getAddress() + o, L - o + 1 + r.below(9), m.b); }); VF_CHECK(!e.empty(), "sub-buffer", "a sub-buffer past the end was accepted"); e = caught([&]{ SharedBuffer y(m.b.getAddress() - 1 - r.below(9), 1, m.b); }); VF_CHECK(!e.empty(), "sub-buffer", "a sub-buffer before the start was accepted"); count("sub_buffers_refused", 2); break; }
        case 3: { BufferChunk cp(x->c); add(cp, x->mem, x->off); auto &l = cs.back(); VF_CHECK(l.c == cs[0].c || true, "", ""); break; }
        case 4: { if (x->mem < 0) break; const size_t o = r.below(x->c.length + 1); x->c.address += o; x->c.length -= o; x->off += o; x->c.length -= r.chance(1, 3) ? r.below(x->c.length + 1) : 0; break; }
        case 5: { if (x->mem < 0) break; const size_t e = r.below(x->c.elements() + 1); x->c.setElements(e); VF_CHECK(x->c.length == e * x->c.dtype.size() && x->c.elements() == e, "setElements", e); break; }
        case 6: { if (x->mem < 0 || !x->c.length) break; const size_t i = r.below(x->c.length); const char v = char(r.next()); x->c.as<char *>()[i] = v; mems[size_t(x->mem)].bytes[x->off + i] = v; break; }
        case 7: case 8: { Chk *y = &cs[r.below(cs.size())]; if (op == 8 && !cs.empty() && x->mem >= 0 && y->mem >= 0 && !x->c.length && !y->c.length) break; std::string want; if (x->mem >= 0) want = mems[size_t(x->mem)].bytes.substr(x->off, x->c.length); if (y->mem >= 0) want += mems[size_t(y->mem)].bytes.substr(y->off, y->c.length); if (want.size() > 4000) break; const bool shares = x->mem < 0; const auto dt = shares ? y->c.dtype : x->c.dtype; const BufferChunk old = x->c, oldY = y->c; if (y->mem < 0 && x->mem >= 0) break; x->c.append(y->c); VF_CHECK(x->c.length == want.size() && memcmp(x->c.as<const void *>(), want.data(), want.size()) == 0 && x->c.dtype == dt, "append", want.size() << " got " << x->c.length << " " << x->c.dtype.toString()); if (shares) { VF_CHECK(x->c == oldY, "append", "to a null chunk must refer to the other"); x->mem = y->mem; x->off = y->off; } else { Mem m; m.b = x->c.getBuffer(); m.bytes.assign((const char *)m.b.getAddress(), 0); fill(m); m.bytes.replace(x->c.address - m.b.getAddress(), want.size(), want); memcpy(x->c.as<void *>(), want.data(), want.size()); mems.push_back(m); x->mem = int(mems.size()) - 1; x->off = x->c.address - m.b.getAddress(); for (auto &z : cs) if (&z != x && z.mem >= 0) VF_CHECK(z.c.getBuffer() != m.b, "append", "result shares memory"); } count("appends"); break; }
        case 9: { x->c.clear(); x->mem = -1; break; }
        case 10: { BufferChunk mv(std::move(x->c)); VF_CHECK(!x->c && x->c.length == 0, "move", "source keeps its range"); if (r.flip()) x->c = std::move(mv); else { x->c = BufferChunk(); x->c = mv; } break; }
        default: { const size_t j = r.below(cs.size()); if (cs.size() > 1 && r.flip()) cs.erase(cs.begin() + long(j)); else { cs[j].c = x->c; cs[j].mem = x->mem; cs[j].off = x->off; } break; }
        }
        check();
        if (cs.size() > 1) { auto &a = cs[r.below(cs.size())], &b = cs[r.below(cs.size())]; const bool eq = a.mem == b.mem && (a.mem < 0 || (a.off == b.off && a.c.length == b.c.length && a.c.getBuffer() == b.c.getBuffer())); VF_CHECK((a.c == b.c) == eq && (a.c != b.c) == !eq, "chunk-equality", sig); }
        if (cs.size() > 12) cs.erase(cs.begin());
    }
    distinct(sig); if (c < 2) sample(sig);
}
//! circular memory: both images and the alias arithmetic
static void circCase(Rng &r, uint64_t c)
{
    const size_t want = size_t(r.range(1, 20000)); auto b = SharedBuffer::makeCirc(want); const size_t L = b.getLength(); VF_CHECK(L >= want && b.getAlias() == b.getAddress() + L && b.getAliasOffset() == L, "circular", want << " " << L); for (size_t i = 0; i < L; i++) ((char *)b.getAddress())[i] = char(i * 7 + c);
    for (int k = 0; k < 60; k++)
    {
        BufferChunk x(b); const size_t o = k == 0 ? L : k == 1 ? 0 : k == 2 ? L - 1 : k == 3 ? L + 1 : r.below(2 * L); x.address += o; x.length = r.below(std::min<size_t>(L, 2 * L - o) + 1); const size_t al = x.getAlias(); VF_CHECK(al >= b.getAddress() && al < b.getAddress() + 2 * L && al != x.address && (al > x.address ? al - x.address : x.address - al) == L, "alias", "offset " << o << " of " << L << " alias offset " << long(al - b.getAddress())); bool ok = true; for (size_t i = 0; i < x.length && ok; i += 1 + x.length / 50) ok = x.as<const char *>()[i] == char(((o + i) % L) * 7 + c); VF_CHECK(ok, "circular-content", o); count("alias_checks");
        if (o < L && x.length) { const auto d = DType("int16", size_t(r.range(1, 3))); x.dtype = d; BufferChunk acc; acc.append(x); bool same = acc.length == x.length && acc.dtype == d; for (size_t i = 0; i < acc.length && same; i++) same = acc.as<const char *>()[i] == x.as<const char *>()[i]; VF_CHECK(same, "append", "across the end of circular memory: " << acc.length << " of " << x.length); count("wrapped_appends"); }
    }
    distinct(uint64_t(L * 131 + c)); if (c < 1) sample("circular of " + std::to_string(want) + " rounded to " + std::to_string(L));
}
//! memory-mapped files
static size_t openFds(void) { size_t n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
static void mmapCase(Rng &r, uint64_t c)
{
    const std::string dir = scratchDir(); const std::string path = dir + "/f"; std::string data(size_t(r.chance(1, 6) ? 0 : r.range(1, 9000)), 0); for (auto &x : data) x = char(r.next()); { std::ofstream f(path, std::ios::binary); f << data; } const size_t fds = openFds(); const bool wr = r.flip(); std::string e;
    for (int k = 0; k < 3; k++)
    {
        e = caught([&]{ auto b = SharedBuffer::makeFromFileMMap(path, true, wr); VF_CHECK(b.getLength() == data.size() && memcmp((void *)b.getAddress(), data.data(), data.size()) == 0, "mapped-content", data.size()); BufferChunk ch(b); b = SharedBuffer(); VF_CHECK(memcmp(ch.as<const void *>(), data.data(), data.size()) == 0, "mapped-lifetime", ""); if (wr) { const size_t i = r.below(data.size()); data[i] = char(data[i] + 1); ch.as<char *>()[i] = data[i]; } });
        VF_CHECK(e.empty() == !data.empty(), "mapping", data.size() << " bytes: " << e); count(e.empty() ? "mappings" : "mappings_refused"); std::ifstream f(path, std::ios::binary); std::string now((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); VF_CHECK(now == data, "mapped-write", "file differs from what was written");
    }
    if (!data.empty()) { e = caught([&]{ auto b = SharedBuffer::makeFromFileMMap(path, false, true); VF_CHECK(b.getLength() == data.size(), "mapped-content", "write-only"); data[0] = char(data[0] + 3); *(volatile char *)b.getAddress() = data[0]; }); VF_CHECK(e.empty(), "mapping", "write-only: " << e); std::ifstream f(path, std::ios::binary); VF_CHECK(char(f.get()) == data[0], "mapped-write", "write-only"); count("write_only_mappings"); }
    e = caught([&]{ SharedBuffer::makeFromFileMMap(path + "none", true, false); }); VF_CHECK(!e.empty(), "mapping", "missing file accepted"); VF_CHECK(openFds() == fds, "descriptor-leak", openFds() - fds << " descriptors left open"); unlink(path.c_str()); rmdir(dir.c_str()); distinct(uint64_t(data.size() * 4 + wr)); if (c < 1) sample(std::to_string(data.size()) + " byte file mapped " + (wr ? "writable" : "read-only"));
}

//------------------------------------------------------------------ conversions available without SIMD support
typedef long double Val; //holds every value of every element type exactly
struct Num { const char *name; size_t size; bool flt; Val lo, hi; Val (*get)(const void *, size_t); void (*set)(void *, size_t, Val); };
template <typename T> static Num num(const char *n) { return Num{n, sizeof(T), std::is_floating_point<T>::value, Val(std::numeric_limits<T>::lowest()), Val(std::numeric_limits<T>::max()), [](const void *p, size_t i) { return Val(((const T *)p)[i]); }, [](void *p, size_t i, Val v) { ((T *)p)[i] = T(v); }}; }
static const std::vector<Num> &nums(void) { static const std::vector<Num> n = {num<int8_t>("int8"), num<uint8_t>("uint8"), num<int16_t>("int16"), num<uint16_t>("uint16"), num<int32_t>("int32"), num<uint32_t>("uint32"), num<int64_t>("int64"), num<uint64_t>("uint64"), num<float>("float32"), num<double>("float64")}; return n; }
static Val cast(const Num &t, Val v) { double b[2]; t.set(b, 0, v); return t.get(b, 0); }
static void convPair(Rng &r, const Num &I, const Num &O)
{
    const size_t id = r.flip() ? 1 : size_t(r.range(1, 5)), od = r.flip() ? id : r.flip() ? 1 : size_t(r.range(1, 4)), n = size_t(r.range(1, 40)), pre = r.below(3); const DType idt(I.name, id), odt(O.name, od), cin(std::string("complex_") + I.name, id), cout_(std::string("complex_") + O.name, od);
    auto val = [&]() -> Val { for (int k = 0; k < 50; k++) { Val v = I.flt ? Val(r.range(-100000, 100000)) / 4 : r.flip() ? I.lo + Val(r.below(1000)) : r.flip() ? I.hi - Val(r.below(1000)) : Val(r.range(-100, 100)); if (v < I.lo || v > I.hi) continue; v = cast(I, v); if (v >= O.lo && v <= O.hi) return v; } return 1; };
    //real to complex
    BufferChunk a(idt, n + pre); a.address += pre * idt.size(); a.setElements(n); std::vector<Val> src(n * id); for (size_t i = 0; i < src.size(); i++) { src[i] = val(); I.set(a.as<void *>(), i, src[i]); } const size_t part = r.flip() ? 0 : size_t(r.range(1, int(n))), prims = (part ? part : n) * id; auto right = [&](const void *p) { for (size_t i = 0; i < prims; i++) if (O.get(p, 2 * i) != cast(O, src[i]) || O.get(p, 2 * i + 1) != 0) return false; return true; };
    { auto o = a.convert(cout_, part); VF_CHECK(o.dtype == cout_ && o.length == prims * cout_.elemSize() && o.elements() == prims / od && !(o.getBuffer() == a.getBuffer()), "convert-size", a.dtype.toString() << " to " << o.dtype.toString() << ": " << o.length << " bytes for " << prims << " values"); if (o.length >= prims * cout_.elemSize()) VF_CHECK(right(o.as<const void *>()), "convert-value", idt.toString() << " to " << cout_.toString()); count("real_to_complex");
      BufferChunk t((prims + 4) * cout_.elemSize()); t.dtype = cout_; memset(t.as<void *>(), 0x5a, t.length); t.length = prims * cout_.elemSize(); size_t w = ~size_t(0); auto e = caught([&]{ w = a.convert(t, part); }); VF_CHECK(e.empty() && w == prims / od, "convert-count", w << " of " << prims / od << " " << e); VF_CHECK(right(t.as<const void *>()), "convert-value", "into a buffer"); const auto tail = (const unsigned char *)t.getEnd(); bool ok = true; for (size_t i = 0; i < 4 * cout_.elemSize(); i++) ok = ok && tail[i] == 0x5a; VF_CHECK(ok, "convert-overrun", "bytes after the output buffer changed"); t.length -= 1 + r.below(t.length); e = caught([&]{ a.convert(t, part); }); VF_CHECK(!e.empty(), "convert-room", "a too small output was accepted"); count("small_outputs_refused"); }
    //complex to components
    BufferChunk z(cin, n + pre); z.address += pre * cin.size(); z.setElements(n); std::vector<Val> zs(2 * n * id); for (size_t i = 0; i < zs.size(); i++) { zs[i] = val(); I.set(z.as<void *>(), i, zs[i]); } auto parts = [&](const BufferChunk &re, const BufferChunk &im) { for (size_t i = 0; i < prims; i++) if (O.get(re.as<const void *>(), i) != cast(O, zs[2 * i]) || O.get(im.as<const void *>(), i) != cast(O, zs[2 * i + 1])) return false; return true; };
    { auto o = z.convertComplex(odt, part); const bool ok = o.first.dtype == odt && o.second.dtype == odt && o.first.length == prims * O.size && o.second.length == o.first.length; VF_CHECK(ok, "convert-size", "components " << o.first.length << " for " << prims); if (ok) VF_CHECK(parts(o.first, o.second), "convert-value", cin.toString() << " to components " << odt.toString()); count("complex_to_components");
      BufferChunk re(prims * O.size), im(prims * O.size); re.dtype = im.dtype = odt; size_t w = ~size_t(0); auto e = caught([&]{ w = z.convertComplex(re, im, part); }); VF_CHECK(e.empty() && w == prims / od && parts(re, im), "convert-value", "components into buffers, returned " << w << " " << e); (r.flip() ? im : re).length -= 1; e = caught([&]{ z.convertComplex(re, im, part); }); VF_CHECK(!e.empty(), "convert-room", "a too small output was accepted"); im.dtype = DType(O.name, od + 1); im.length = re.length = prims * O.size; VF_CHECK(!caught([&]{ z.convertComplex(re, im, part); }).empty(), "convert-accepted", "component types differ"); }
    VF_CHECK(!caught([&]{ a.convertComplex(odt); }).empty(), "convert-accepted", "components of a real buffer"); VF_CHECK(!caught([&]{ z.convert(odt); }).empty(), "convert-accepted", "complex to real"); VF_CHECK(!caught([&]{ a.convert(DType("custom", 3)); }).empty(), "convert-accepted", "to custom"); count("conversions_refused", 3);
}
static void convCase(Rng &r, uint64_t c)
{
    convPair(r, nums()[c % 10], nums()[(c / 10) % 10]);
    //integers of the same width share the memory
    static const char *w[] = {"int8", "int16", "int32", "int64", "complex_int8", "complex_int16", "complex_int32", "complex_int64"}; std::string s = w[r.below(8)], u = s; u.insert(u.find("int"), "u"); if (r.flip()) std::swap(s, u); if (r.chance(1, 4)) u = s; const size_t id = size_t(r.range(1, 4)), od = size_t(r.range(1, 4)), n = r.below(30); BufferChunk b(DType(s, id), n); for (size_t k = 0; k < b.length; k++) b.as<char *>()[k] = char(r.next()); const size_t part = n && r.flip() ? size_t(r.range(1, int(n))) : 0; auto v = b.convert(DType(u, od), part); VF_CHECK(v.length == (part ? part : n) * b.dtype.size() && v.dtype == DType(u, od) && v.address == b.address && v.getEnd() <= b.getBuffer().getEnd(), "convert-view", b.dtype.toString() << " x " << n << " to " << v.dtype.toString() << ": " << v.length << " bytes of " << b.length); count("views"); distinct(std::to_string(c % 100) + s + u + std::to_string(id * 10 + od)); if (c < 1) sample(b.dtype.toString() + " viewed as " + v.dtype.toString());
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"type", typeSkip}, {"chunk", chunkCase}, {"circ", circCase}, {"mmap", mmapCase}, {"conv", convCase}}); }
