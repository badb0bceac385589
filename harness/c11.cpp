// C11: serialized values deserialize to equal values
#include "vfp.hpp"
#include <Pothos/Archive.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <sstream>
#include <set>
#include <map>

namespace c11 {
struct PolyBase { virtual ~PolyBase(void) {} };
template <typename T> struct Poly : PolyBase { Poly(void) : value() {} Poly(const T &v) : value(v) {} T value; };
struct Custom
{
    template <typename Archive> void serialize(Archive &a, const unsigned int) { a & i; a & s; a & m; a & v; a & o; }
    int i = 0; std::string s; std::map<int, std::string> m; std::vector<std::vector<short>> v; Pothos::Object o;
};
}
namespace Pothos { namespace serialization {
template <class Archive> void serialize(Archive &, c11::PolyBase &, const unsigned int) {}
template <class Archive, typename T> void serialize(Archive &ar, c11::Poly<T> &t, const unsigned int) { ar & t.value; }
}}
POTHOS_CLASS_EXPORT(c11::Poly<int>)
POTHOS_CLASS_EXPORT(c11::Poly<std::string>)

using namespace vf;

template <typename T> static std::string show(const T &x) { std::ostringstream o; o << std::hex; const unsigned char *p = (const unsigned char *)&x; for (size_t i = 0; i < sizeof(T) && i < 16; i++) o << (int)p[i] << '.'; return o.str(); }

template <typename T, typename Eq>
static void rt(const T &x, const char *what, Eq eq)
{
    std::ostringstream os;
    { Pothos::Archive::OStreamArchiver ar(os); ar << x; ar << (unsigned char)0xA5; }
    std::istringstream is(os.str());
    T y = T();
    unsigned char tail = 0;
    const auto err = caught([&] { Pothos::Archive::IStreamArchiver ar(is); ar >> y; ar >> tail; });
    VF_CHECK(err.empty(), std::string("roundtrip-throws:") + what, err << " bytes=" << hexOf(os.str()));
    if (!err.empty()) return;
    VF_CHECK(eq(x, y), std::string("roundtrip-differs:") + what, "wrote " << show(x) << " read " << show(y) << " bytes=" << hexOf(os.str()));
    VF_CHECK(tail == 0xA5, std::string("wrong-length-consumed:") + what, "bytes=" << hexOf(os.str()));
    VF_CHECK(is.peek() == EOF, std::string("unconsumed-bytes:") + what, "bytes=" << hexOf(os.str()));
    count(std::string("typed_roundtrips"));
    distinct(hash64(os.str()) ^ hash64(what));
}
template <typename T> static void rtEq(const T &x, const char *what) { rt(x, what, [](const T &a, const T &b) { return a == b; }); }
template <typename T> static void rtBits(const T &x, const char *what) { rt(x, what, [](const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }); }

static void typedCase(Rng &r, uint64_t)
{
    for (int i = 0; i < 10; i++)
    {
#define X_(T) rtEq<T>(interestingInt<T>(r), #T);
        VF_INTS(X_)
#undef X_
        rtEq<bool>(r.flip(), "bool");
        rtBits<float>(interestingFloat<float>(r), "float");
        rtBits<double>(interestingFloat<double>(r), "double");
        { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); rtBits(f, "float-bits"); }
        { uint64_t b = r.next(); double f; memcpy(&f, &b, 8); rtBits(f, "double-bits"); }
        rtEq<std::complex<int>>(std::complex<int>(interestingInt<int>(r), interestingInt<int>(r)), "complex<int>");
        rtEq<std::complex<long long>>(std::complex<long long>(interestingInt<long long>(r), interestingInt<long long>(r)), "complex<llong>");
        rtEq<std::complex<signed char>>(std::complex<signed char>(interestingInt<signed char>(r), interestingInt<signed char>(r)), "complex<schar>");
    }
    rtEq(randString(r), "string");
    { std::wstring w; for (size_t n = r.below(20); n > 0; n--) w += wchar_t(r.below(0x10000)); rtEq(w, "wstring"); }
    rtEq(randVec<long long>(r, interestingInt<long long>), "vector<llong>");
    rtEq(randVec<bool>(r, [](Rng &q) { return q.flip(); }), "vector<bool>");
    rtEq(randVec<std::vector<std::string>>(r, [](Rng &q) { return randVec<std::string>(q, [](Rng &z) { return randString(z); }); }), "vector<vector<string>>");
    { std::map<long long, std::string> m; for (size_t n = r.below(8); n > 0; n--) m[interestingInt<long long>(r)] = randString(r); rtEq(m, "map"); }
    { std::map<std::string, std::vector<int>> m; for (size_t n = r.below(8); n > 0; n--) m[randString(r)] = randVec<int>(r, interestingInt<int>); rtEq(m, "map-of-vector"); }
    { std::set<unsigned> m; for (size_t n = r.below(8); n > 0; n--) m.insert(interestingInt<unsigned>(r)); rtEq(m, "set"); }
    { std::set<std::string> m; for (size_t n = r.below(8); n > 0; n--) m.insert(randString(r)); rtEq(m, "set<string>"); }
    rtEq(std::make_pair(interestingInt<short>(r), randString(r)), "pair");
    {
        c11::Custom x; x.i = interestingInt<int>(r); x.s = randString(r); x.m[interestingInt<int>(r)] = randString(r);
        x.v = randVec<std::vector<short>>(r, [](Rng &q) { return randVec<short>(q, interestingInt<short>); }); x.o = randObject(r, 2);
        rt(x, "custom", [](const c11::Custom &a, const c11::Custom &b) { return a.i == b.i && a.s == b.s && a.m == b.m && a.v == b.v && deepEq(a.o, b.o); });
    }
    // polymorphic pointers
    {
        const int iv = interestingInt<int>(r); const std::string sv = randString(r);
        std::unique_ptr<c11::PolyBase> a(new c11::Poly<int>(iv)), b(new c11::Poly<std::string>(sv));
        std::stringstream ss;
        { Pothos::Archive::OStreamArchiver ar(ss); c11::PolyBase *p = a.get(), *q = b.get(); ar << p; ar << q; ar << p; }
        c11::PolyBase *x = nullptr, *y = nullptr, *z = nullptr;
        const auto err = caught([&] { Pothos::Archive::IStreamArchiver ar(ss); ar >> x; ar >> y; ar >> z; });
        VF_CHECK(err.empty(), "roundtrip-throws:poly", err);
        auto px = dynamic_cast<c11::Poly<int> *>(x); auto py = dynamic_cast<c11::Poly<std::string> *>(y); auto pz = dynamic_cast<c11::Poly<int> *>(z);
        VF_CHECK(px && py && pz && px->value == iv && py->value == sv && pz->value == iv, "roundtrip-differs:poly", iv << " " << sv);
        delete x; delete y; delete z;
        count("poly_roundtrips");
    }
    
}

static void objectCase(Rng &r, uint64_t)
{
    // several objects back to back in one stream
    std::vector<Pothos::Object> objs;
    for (size_t n = 1 + r.below(4); n > 0; n--) objs.push_back(randObject(r, unsigned(r.below(5))));
    std::stringstream ss;
    std::vector<size_t> ends;
    for (auto &o : objs) { o.serialize(ss); ends.push_back(ss.str().size()); }
    size_t i = 0;
    for (auto &o : objs)
    {
        Pothos::Object back;
        const auto err = caught([&] { back.deserialize(ss); });
        const std::string tname = o ? o.getTypeString() : "null";
        VF_CHECK(err.empty(), "object-roundtrip-throws:" + tname, err);
        if (!err.empty()) return;
        VF_CHECK(deepEq(o, back), "object-roundtrip-differs:" + tname, "bytes=" << hexOf(ss.str()));
        VF_CHECK(size_t(ss.tellg()) == ends[i], "object-wrong-length-consumed:" + tname, ss.tellg() << " expected " << ends[i]);
        count("object_roundtrips");
        // the copy is independent: same bytes again
        std::stringstream s2; back.serialize(s2);
        std::stringstream s3; o.serialize(s3);
        VF_CHECK(s2.str() == s3.str(), "reserialize-differs:" + tname, hexOf(s2.str()) << " vs " << hexOf(s3.str()));
        distinct(hash64(s3.str()));
        sample(tname + " " + hexOf(s3.str(), 60));
        i++;
    }
    VF_CHECK(ss.peek() == EOF, "object-trailing-bytes", "left over");
}

//! lengths at which an encoding of the length changes its size
static void bigCase(Rng &r, uint64_t c)
{
    static const size_t sizes[] = {127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131071, 262145};
    const size_t n = sizes[c % 15]; const std::string tag = std::to_string(n);
    { std::string s(n, 0); for (auto &x : s) x = char(r.next()); rtEq(s, "big-string"); Pothos::Object o(s), b; std::stringstream ss; o.serialize(ss); const auto err = caught([&] { b.deserialize(ss); }); VF_CHECK(err.empty() && deepEq(o, b), "object-roundtrip-differs:big-string", tag << " " << err); }
    { std::wstring s(n, 0); for (auto &x : s) x = wchar_t(r.below(0x10000)); rtEq(s, "big-wstring"); }
    { std::vector<int> v(n); for (auto &x : v) x = interestingInt<int>(r); rtEq(v, "big-vector<int>"); }
    { std::vector<double> v(n); for (auto &x : v) x = double(r.next() % 1000) / 8; rtEq(v, "big-vector<double>"); }
    { std::vector<bool> v(n); for (size_t i = 0; i < n; i++) v[i] = r.flip(); rtEq(v, "big-vector<bool>"); }
    { std::vector<std::string> v(n); for (size_t i = 0; i < n; i += 1 + r.below(9)) v[i] = std::to_string(i); rtEq(v, "big-vector<string>"); }
    { std::map<unsigned, short> v; for (size_t i = 0; i < n; i++) v[unsigned(i * 7)] = short(r.next()); rtEq(v, "big-map"); }
    { std::set<unsigned> v; for (size_t i = 0; i < n; i++) v.insert(unsigned(i * 13)); rtEq(v, "big-set"); }
    { Pothos::ObjectVector v(n); for (size_t i = 0; i < n; i += 1 + r.below(50)) v[i] = Pothos::Object(int(i)); Pothos::Object o(v), b; std::stringstream ss; o.serialize(ss); const auto err = caught([&] { b.deserialize(ss); }); VF_CHECK(err.empty() && deepEq(o, b), "object-roundtrip-differs:big-ObjectVector", tag << " " << err); }
    { Pothos::BufferChunk v(n); for (size_t i = 0; i < n; i++) v.as<unsigned char *>()[i] = (unsigned char)r.next(); Pothos::Object o(v), b; std::stringstream ss; o.serialize(ss); const auto err = caught([&] { b.deserialize(ss); }); VF_CHECK(err.empty() && deepEq(o, b), "object-roundtrip-differs:big-BufferChunk", tag << " " << err); }
    count("big_roundtrips", 10); distinct(tag); sample("containers and strings of " + tag + " elements");
}

static void unserializableCase(Rng &r, uint64_t)
{
    // a type without serialization support must throw, at any depth, rather than write something unreadable
    struct Foo { int x; };
    Pothos::ObjectVector v; for (size_t n = r.below(4); n > 0; n--) v.push_back(randScalar(r));
    v.push_back(Pothos::Object(Foo{1}));
    std::ostringstream os;
    VF_CHECK(!caught([&] { Pothos::Object(v).serialize(os); }).empty(), "unregistered-type-accepted", "");
    count("unserializable_rejected");
    distinct(v.size());
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"typed", typedCase}, {"object", objectCase}, {"big", bigCase}, {"unser", unserializableCase}});
}
