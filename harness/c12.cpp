// C12: corrupt or truncated serialized data is rejected, never misused
#include "vfp.hpp"
#include <Pothos/Archive.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Remote.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Managed.hpp>
#include <sstream>
#include <new>
#include <malloc.h>
namespace c12 {
struct PolyBase { virtual ~PolyBase(void) {} };
struct Poly : PolyBase { std::string a; std::vector<int> b; int gone = 0; ~Poly(void) { gone = 1; } };
}
namespace Pothos { namespace serialization { template <class Archive> void serialize(Archive &ar, c12::Poly &t, const unsigned int) { ar & t.a; ar & t.b; } }}
POTHOS_CLASS_EXPORT(c12::Poly)
using namespace vf; using namespace Pothos;

//! memory that is live in this thread beyond what was there when a decode began; over-large requests fail like they do outside of the sanitizer
static thread_local int64_t g_live = 0, g_peak = 0;
static void *take(size_t n) { void *p = std::malloc(n ? n : 1); if (p) { g_live += int64_t(malloc_usable_size(p)); if (g_live > g_peak) g_peak = g_live; } else if (int64_t(n) > 0 && g_live + int64_t(n) > g_peak) g_peak = g_live + int64_t(n); return p; }
static void give(void *p) { if (p) g_live -= int64_t(malloc_usable_size(p)); std::free(p); }
void *operator new(size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
//! bounds what decoding 'size' bytes may hold at once: a few reads ahead per nesting level, and the values themselves
struct Meter
{
    size_t size; int64_t at; std::string what;
    Meter(size_t n, const char *w) : size(n), at(g_live), what(w) { g_peak = g_live; }
    ~Meter(void) { const int64_t used = g_peak - at, most = (16 << 20) + int64_t(size) * 512; count("metered_decodes"); if (used > (1 << 20)) count("decodes_above_1MiB"); VF_CHECK(used <= most, "allocates-far-more-than-input:" + what, used << " bytes for an input of " << size); }
};

static std::string leb(uint64_t v) { std::string s; do { unsigned char b = v & 0x7f; v >>= 7; if (v) b |= 0x80; s += char(b); } while (v); return s; }
static std::string garble(Rng &r, const std::string &a, const std::string &b)
{
    std::string t = a; for (unsigned n = 1 + unsigned(r.below(4)); n; n--)
    {
        const size_t at = t.empty() ? 0 : r.below(t.size()); switch (r.below(10))
        {
        case 0: if (!t.empty()) t[at] = char(t[at] ^ (1 << r.below(8))); break;
        case 1: if (!t.empty()) t[at] = char(r.next()); break;
        case 2: if (!t.empty()) t.erase(at, 1 + r.below(4)); break;
        case 3: t.insert(at, 1, char(r.next())); break;
        case 4: { static const uint64_t ls[] = {0xffffffffull, 0x7fffffffull, 0x10000000ull, 0xffffffffffffffffull, 1u << 20, 0x100}; const auto l = leb(ls[r.below(6)]); t.replace(at, std::min<size_t>(t.size() - at, r.below(3)), l); break; }
        case 5: t.insert(at, std::string(1 + r.below(30), char(r.flip() ? 0x80 : 0xff))); break;
        case 6: if (!b.empty()) { const size_t f = r.below(b.size()); t.replace(at, r.below(t.size() - at + 1), b.substr(f, r.below(b.size() - f + 1))); } break;
        case 7: t = t.substr(0, at); break;
        case 8: if (!t.empty()) { const size_t l = r.below(std::min<size_t>(t.size() - at, 64) + 1); t.insert(r.below(t.size() + 1), t.substr(at, l)); } break;
        default: if (!t.empty()) t[at] = char(r.flip() ? 0 : 1);
        }
        if (t.size() > 65536) t.resize(65536);
    } return t;
}
static std::string enc(const Object &o) { std::ostringstream os; o.serialize(os); return os.str(); }
//! outcome of deserializing any bytes: 0 rejected, 1 accepted
static int decode(const std::string &s, Object &o, bool &unread)
{
    Meter mt(s.size(), "object");
    std::istringstream is(s); try { o.deserialize(is); } catch (const ObjectSerializeError &) { return 0; } catch (const std::exception &ex) { violation("error-type", std::string(ex.what()) + " bytes=" + hexOf(s)); return 0; } unread = is.peek() != EOF; return 1;
}
//! an accepted value can be used like any other
static void useValue(const Object &o, const std::string &s, int depth = 0)
{
    caught([&]{ o.toString(); }); caught([&]{ o.hashCode(); }); try { o.compareTo(o); } catch (const Exception &) {} if (depth) return;
    std::string e; try { e = enc(o); } catch (const Exception &ex) { violation("accepted-unusable", ex.displayText() + " bytes=" + hexOf(s)); return; }
    Object p; bool unread = false; if (!decode(e, p, unread)) { violation("accepted-unusable", "does not survive a round trip, bytes=" + hexOf(s)); return; } VF_CHECK(!unread, "accepted-unusable", "round trip length, bytes=" << hexOf(s)); caught([&]{ VF_CHECK(enc(p) == e, "accepted-unusable", "re-encodes differently, bytes=" << hexOf(s)); });
}
static void objCase(Rng &r, uint64_t c)
{
    const Object a = randObject(r, 1 + unsigned(r.below(3))), b = randObject(r, 2); std::string x, y; if (!caught([&]{ x = enc(a); y = enc(b); }).empty()) return; if (x.size() > 3000) x = enc(randScalar(r)); distinct(hash64(x));
    for (size_t k = 0; k < x.size(); k++)
    {
        if (x.size() > 300 && k > 40 && k + 40 < x.size() && !r.chance(200, x.size())) continue; Object o; bool unread; const auto t = x.substr(0, k);
        VF_CHECK(!decode(t, o, unread), "truncation-accepted", k << " of " << x.size() << " bytes of " << hexOf(x)); VF_CHECK(!o, "partial-value", "object set after rejection"); count("truncations");
    }
    for (int k = 0; k < 40; k++)
    {
        const auto t = garble(r, x, y); Object o; bool unread; const int ok = decode(t, o, unread); count(ok ? "mutations_accepted" : "mutations_rejected"); if (ok) useValue(o, t); else VF_CHECK(!o, "partial-value", "object set after rejection"); if (c < 2 && k < 2) sample(std::string(ok ? "accepted " : "rejected ") + hexOf(t.substr(0, 40)));
    }
}
//! bytes that never were an encoding, and hostile structures put together by hand
static std::string typeHash(const Object &o) { std::string s = enc(o); size_t i = 2; while (i < s.size() && (s[i] & 0x80)) i++; return s.substr(0, i + 1); } //version, not-null, type hash
static void rawCase(Rng &r, uint64_t c)
{
    static const std::vector<Object> kinds{Object(1), Object(1u), Object((long long)1), Object((unsigned long long)1), Object(short(1)), Object('a'), Object(1.0), Object(1.0f), Object(true), Object(std::string("x")), Object(std::vector<int>{1}), Object(std::vector<std::string>{"a"}), Object(std::vector<bool>{true}), Object(std::vector<double>{1.0}), Object(std::complex<float>(1, 2)), Object(ObjectVector{Object(1)}), Object(ObjectMap()), Object(ObjectSet()), Object(ObjectKwargs()), Object(BufferChunk(8)), Object(DType("int32")), Object(Packet()), Object(Label()), Object(PortInfo()), Object(ThreadPoolArgs()), Object(std::map<std::string, std::string>()), Object(ProxyVector()), Object(ProxyMap())};
    std::string sig; for (int k = 0; k < 40; k++)
    {
        std::string t; const unsigned how = unsigned(r.below(4)); const Object &kind = kinds[r.below(kinds.size())];
        if (how == 0) for (size_t n = r.below(60); n; n--) t += char(r.next());
        else
        {
            caught([&]{ t = typeHash(kind); }); if (how == 1) for (size_t n = r.below(60); n; n--) t += char(r.next());
            if (how == 2) { static const uint64_t ls[] = {0xffffffffull, 0xfffffffeull, 0x80000000ull, 100000000, 5, 0}; t += leb(ls[r.below(6)]); for (size_t n = r.below(40); n; n--) t += char(r.chance(1, 3) ? r.next() : r.below(2)); }
            if (how == 3) { const unsigned depth = 1 + unsigned(r.below(60)); const auto h = typeHash(Object(ObjectVector())).substr(1); for (unsigned d = 0; d < depth; d++) t = (d ? t : std::string(1, t.empty() ? 2 : t[0])) + h + leb(1 + r.below(3)); }
        }
        sig += t; Object o; bool unread; const int ok = decode(t, o, unread); count(ok ? "raw_accepted" : "raw_rejected"); if (ok) useValue(o, t); if (c < 1 && k < 3) sample(std::string(ok ? "accepted raw " : "rejected raw ") + hexOf(t.substr(0, 40)));
    }
    distinct(sig);
}
//! typed archives
template <typename T> static void typedOne(Rng &r, const T &v, const char *what)
{
    std::ostringstream os; { Archive::OStreamArchiver ar(os); ar << v; } const auto x = os.str(); distinct(hash64(x) ^ hash64(what));
    auto load = [&](const std::string &s) -> int { Meter mt(s.size(), what); std::istringstream is(s); try { T y = T(); Archive::IStreamArchiver ar(is); ar >> y; return 1; } catch (const std::exception &) { return 0; } };
    for (size_t k = 0; k < x.size(); k++) { if (x.size() > 200 && k > 20 && k + 20 < x.size() && !r.chance(100, x.size())) continue; VF_CHECK(!load(x.substr(0, k)), std::string("truncation-accepted:") + what, k << " of " << hexOf(x)); count("typed_truncations"); }
    VF_CHECK(load(x), std::string("valid-rejected:") + what, hexOf(x)); for (int k = 0; k < 6; k++) count(load(garble(r, x, x)) ? "typed_accepted" : "typed_rejected");
}
static void typedCase(Rng &r, uint64_t)
{
#define X_(T) typedOne<T>(r, interestingInt<T>(r), #T);
    VF_INTS(X_)
#undef X_
    typedOne(r, interestingFloat<float>(r), "float"); typedOne(r, interestingFloat<double>(r), "double"); typedOne(r, randString(r), "string"); typedOne(r, std::wstring(r.below(9), L'x'), "wstring"); typedOne(r, randVec<int>(r, interestingInt<int>), "vector<int>"); typedOne(r, randVec<std::string>(r, [](Rng &q) { return randString(q); }), "vector<string>");
    { std::vector<bool> b(r.below(20)); typedOne(r, b, "vector<bool>"); } { std::map<std::string, int> m; for (size_t n = r.below(6); n; n--) m[randString(r)] = int(n); typedOne(r, m, "map"); } { std::set<std::string> m; for (size_t n = r.below(6); n; n--) m.insert(randString(r)); typedOne(r, m, "set"); } typedOne(r, std::complex<double>(1.5, -2), "complex"); typedOne(r, std::make_pair(randString(r), interestingInt<int>(r)), "pair");
    {
        //a pointer that holds something already: whatever the archive does, it holds exactly one thing afterwards
        c12::Poly v; v.a = randString(r); v.b = randVec<int>(r, interestingInt<int>); std::ostringstream os; { Archive::OStreamArchiver ar(os); c12::PolyBase *p = &v; ar << p; } const auto x = os.str(); distinct(hash64(x));
        auto load = [&](const std::string &s) -> int { Meter mt(s.size(), "pointer"); std::istringstream is(s); auto q = new c12::Poly(); q->a = "kept"; c12::PolyBase *t = q; int ok = 1; try { Archive::IStreamArchiver ar(is); ar >> t; } catch (const std::exception &) { ok = 0; } if (!ok && t == q) VF_CHECK(q->a == "kept", "refused-pointer-changed", hexOf(s)); delete t; count("pointer_loads"); return ok; };
        for (size_t k = 0; k < x.size(); k += 1 + (x.size() > 200 ? r.below(x.size() / 50) : 0)) VF_CHECK(!load(x.substr(0, k)), "truncation-accepted:pointer", k << " of " << hexOf(x));
        VF_CHECK(load(x), "valid-rejected:pointer", hexOf(x)); for (int k = 0; k < 3; k++) load(garble(r, x, x));
    }
    typedOne(r, randDType(r), "DType"); typedOne(r, randBuffer(r), "BufferChunk"); typedOne(r, randLabel(r, 1), "Label"); typedOne(r, randObject(r, 2), "Object");
}
//! the remote-call decoders, on both sides of a connection
static std::string be32(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += char(v >> (8 * i)); return s; }
static std::string dgram(const Object &o) { const auto p = enc(o); return "PRPC" + be32(uint32_t(p.size())) + p + "CPRP"; }
struct Target { int v = 3; int get(void) const { return v; } int add(int x) { return v += x; } };
static auto managedTarget = ManagedClass().registerConstructor<Target>().registerMethod("get", &Target::get).registerMethod("add", &Target::add).commit("vf/C12Target");
static ObjectKwargs request(Rng &r, const std::vector<Object> &ids)
{
    static const char *acts[] = {"RemoteProxyEnvironment", "findProxy", "convertObjectToProxy", "convertProxyToObject", "~RemoteProxyHandle", "call", "compareTo", "hashCode", "toString", "getClassName", "nonsense"};
    ObjectKwargs q; q["tid"] = Object(uint32_t(r.next())); q["action"] = Object(std::string(acts[r.below(11)])); q["name"] = Object(std::string(q["action"].extract<std::string>() == "RemoteProxyEnvironment" ? (r.chance(5, 6) ? "managed" : "nope") : q["action"].extract<std::string>() == "findProxy" ? "vf/C12Target" : r.flip() ? "get" : "()")); auto id = [&]{ return ids.empty() || r.chance(1, 8) ? randScalar(r) : ids[r.below(ids.size())]; };
    q["envID"] = id(); q["handleID"] = id(); q["otherID"] = id(); q["local"] = randScalar(r); if (r.chance(1, 3)) q["0"] = id(); if (r.chance(1, 8)) { auto it = q.begin(); std::advance(it, r.below(q.size())); q.erase(it); } if (r.chance(1, 8)) { auto it = q.begin(); std::advance(it, r.below(q.size())); it->second = randScalar(r); } return q;
}
static bool validReply(const std::string &s, ObjectKwargs &kw)
{
    if (s.size() < 12 || s.compare(0, 4, "PRPC") || s.compare(s.size() - 4, 4, "CPRP")) return false; uint32_t n = 0; for (int i = 4; i < 8; i++) n = n << 8 | (unsigned char)s[i]; if (n != s.size() - 12) return false; Object o; bool unread; if (!decode(s.substr(8, n), o, unread) || o.type() != typeid(ObjectKwargs)) return false; kw = o.extract<ObjectKwargs>(); return true;
}
static void serverCase(Rng &r, uint64_t c)
{
    std::vector<Object> ids; std::string sig; RemoteHandler h("here"); std::string last;
    for (int k = 0; k < 40; k++)
    {
        ObjectKwargs q = request(r, ids); if (k < 3) { q.clear(); static const char *f[] = {"RemoteProxyEnvironment", "findProxy", "call"}; q["tid"] = Object(uint32_t(7)); q["action"] = Object(std::string(f[k])); q["name"] = Object(std::string(k == 0 ? "managed" : k == 1 ? "vf/C12Target" : "()")); if (k) q["envID"] = ids.front(); if (k == 2) q["handleID"] = ids[1]; }
        std::string x = dgram(Object(q)); const bool clean = k < 3 || r.chance(1, 2); bool mustFail = false; if (!clean) { switch (r.below(6)) { case 0: x = garble(r, x, last); break; case 1: mustFail = true; count("request_truncations"); x = x.substr(0, r.flip() ? r.below(x.size()) : x.size() - 1 - r.below(8)); break; case 4: case 5: { mustFail = true; count("framing_altered"); const size_t at = r.flip() ? r.below(4) : x.size() - 1 - r.below(4); x[at] = char(x[at] ^ (1 + r.below(255))); break; } case 2: x = "PRPC" + be32(uint32_t(r.flip() ? r.next() : x.size() - 12 + r.range(-3, 3))) + x.substr(8); break; default: { const auto p = garble(r, x.substr(8, x.size() - 12), last); x = "PRPC" + be32(uint32_t(p.size())) + p + "CPRP"; } } }
        last = x; sig += x; std::istringstream is(x); std::ostringstream os; std::string err; bool done = false; Meter mt(x.size(), "server"); try { done = h.runHandlerOnce(is, os); } catch (const std::exception &ex) { err = ex.what(); } (void)done;
        if (mustFail) VF_CHECK(!err.empty(), "broken-framing-accepted", x.size() << " bytes " << hexOf(x));
        if (err.empty()) { ObjectKwargs kw; VF_CHECK(validReply(os.str(), kw), "reply-malformed", hexOf(x) << " -> " << hexOf(os.str())); if (clean) VF_CHECK(kw.count("tid") && q.count("tid") && enc(kw["tid"]) == enc(q["tid"]), "reply-id", hexOf(x)); if (kw.count("handleID")) ids.push_back(kw["handleID"]); if (kw.count("envID")) ids.push_back(kw["envID"]); count(kw.count("errorMsg") ? "requests_refused" : "requests_served"); }
        else { VF_CHECK(os.str().empty(), "reply-after-error", hexOf(os.str())); if (clean && q.count("tid")) VF_CHECK(false, "valid-request-rejected", err << " " << hexOf(x)); count("requests_undecodable"); }
        if (k < 3) VF_CHECK(err.empty() && int(ids.size()) == k + 1, "valid-request-rejected", err << " step " << k);
    }
    //let go of everything
    for (auto &i : ids) { ObjectKwargs q; q["tid"] = Object(uint32_t(1)); q["action"] = Object(std::string("~RemoteProxyHandle")); q["handleID"] = i; std::istringstream is(dgram(Object(q))); std::ostringstream os; h.runHandlerOnce(is, os); }
    distinct(sig); if (c < 1) sample("40 requests, last " + hexOf(last.substr(0, 60)));
}
static void clientCase(Rng &r, uint64_t c)
{
    //the id a client expects is its thread's: learn it from the request it sends
    std::string sig; for (int k = 0; k < 12; k++)
    {
        std::ostringstream probe; { std::istringstream none(""); caught([&]{ RemoteClient::makeEnvironment(none, probe, "managed"); }); } ObjectKwargs rq; VF_CHECK(validReply(probe.str(), rq), "request-malformed", hexOf(probe.str())); ObjectKwargs ok; ok["tid"] = rq["tid"]; ok["envID"] = Object(size_t(5)); ok["upid"] = Object(std::string("u")); ok["nodeId"] = Object(std::string("n")); ok["peerAddr"] = Object(std::string("p"));
        ObjectKwargs second; second["tid"] = rq["tid"]; second["handleID"] = Object(size_t(6)); std::string a = dgram(Object(ok)), b = dgram(Object(second)); const unsigned how = unsigned(r.below(5)); std::string s = a + b; bool envOk = true, callOk = true;
        if (how == 1) { s = garble(r, s, b); envOk = callOk = false; } if (how == 2) { const size_t cut = r.below(s.size()); s = s.substr(0, cut); envOk = cut >= a.size(); callOk = false; } if (how == 3) { second[r.flip() ? "errorMsg" : "handleID"] = randScalar(r); s = a + dgram(Object(second)); callOk = false; } if (how == 4) { s = a + dgram(randObject(r, 2)); callOk = false; }
        sig += s; std::istringstream is(s); std::ostringstream os; std::string e1, e2; Meter mt(s.size(), "client"); try { auto env = RemoteClient::makeEnvironment(is, os, "managed"); try { Proxy p = env->findProxy("x"); count("client_calls_ok"); } catch (const Exception &ex) { e2 = ex.displayText(); } catch (const std::exception &ex) { e2 = ex.what(); violation("error-type", e2 + " bytes=" + hexOf(s)); } } catch (const Exception &ex) { e1 = ex.displayText(); } catch (const std::exception &ex) { e1 = ex.what(); violation("error-type", e1 + " bytes=" + hexOf(s)); }
        if (envOk && how != 1) VF_CHECK(e1.empty(), "valid-reply-rejected", e1); if (how == 2 && !envOk) VF_CHECK(!e1.empty(), "truncation-accepted", "environment reply"); if (how == 2 && envOk) VF_CHECK(!e2.empty(), "truncation-accepted", "call reply"); if (callOk) VF_CHECK(e2.empty(), "valid-reply-rejected", e2); count("client_conversations"); if (!e1.empty() || !e2.empty()) count("client_errors");
    }
    distinct(sig); if (c < 1) sample("client fed garbled and truncated replies");
}
int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"obj", objCase}, {"raw", rawCase}, {"typed", typedCase}, {"server", serverCase}, {"client", clientCase}}); }
