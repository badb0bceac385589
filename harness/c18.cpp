// C18/C19: remote proxies behave like local ones; broken connections fail every caller cleanly
#include "vfp.hpp"
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Remote.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Poco/Net/ServerSocket.h>
#include <Poco/Net/SocketStream.h>
#include <Poco/Net/StreamSocket.h>
#include <condition_variable>
#include <spawn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <signal.h>
extern char **environ;
#include <memory>
using namespace vf; using namespace Pothos;

//------------------------------------------------------------------ the connection stand-in
struct Pipe //one direction: bytes arrive in order, in arbitrary chunks, until it is closed or has carried `limit` bytes
{
    std::mutex m; std::condition_variable cv; std::string buf; size_t rd = 0; bool closed = false, refuse = false; uint64_t total = 0, limit = ~0ull; unsigned tail = 0; uint64_t salt = 1; std::function<void(void)> onCut;
    bool put(const char *s, size_t n)
    {
        bool cut = false; { std::lock_guard<std::mutex> l(m); if (closed || refuse) return false; const uint64_t room = limit - total; if (n > room) { cut = true; n = size_t(room); } buf.append(s, n); total += n; if (cut) { Rng r(salt); for (unsigned i = 0; i < tail; i++) buf += char(r.next()); closed = true; } } cv.notify_all(); progress();
        if (cut && onCut) onCut(); return !cut;
    }
    size_t get(char *s, size_t n) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&]{ return closed || rd < buf.size(); }); n = std::min(n, buf.size() - rd); memcpy(s, buf.data() + rd, n); rd += n; if (rd == buf.size()) { buf.clear(); rd = 0; } return n; }
    void close(void) { { std::lock_guard<std::mutex> l(m); closed = true; } cv.notify_all(); }
    uint64_t carried(void) { std::lock_guard<std::mutex> l(m); return total; }
};
struct InBuf : std::streambuf { Pipe &p; Rng r; char b[512]; InBuf(Pipe &q, uint64_t s) : p(q), r(s) {} int_type underflow(void) override { const size_t n = p.get(b, r.chance(1, 4) ? size_t(r.range(1, 20)) : sizeof(b)); if (!n) return traits_type::eof(); setg(b, b, b + n); return traits_type::to_int_type(b[0]); } };
struct OutBuf : std::streambuf { Pipe &p; OutBuf(Pipe &q) : p(q) {} int_type overflow(int_type c) override { const char x = char(c); return p.put(&x, 1) ? c : traits_type::eof(); } std::streamsize xsputn(const char *s, std::streamsize n) override { return p.put(s, size_t(n)) ? n : 0; } };
struct Session //a client end and a served end joined by two pipes
{
    Pipe up, down; InBuf ci, si; OutBuf co, so; std::istream cis, sis; std::ostream cos, sos; std::thread t; std::string error; std::atomic<bool> over{false};
    Session(Rng &r) : ci(down, r.next()), si(up, r.next()), co(up), so(down), cis(&ci), sis(&si), cos(&co), sos(&so) {}
    void start(void) { t = std::thread([this]{ try { RemoteHandler h("peer"); h.runHandler(sis, sos); } catch (const Exception &ex) { error = ex.displayText(); } catch (const std::exception &ex) { error = std::string("std: ") + ex.what(); } up.close(); down.close(); over = true; progress(); }); }
    ~Session(void) { up.close(); down.close(); if (t.joinable()) t.join(); }
    ProxyEnvironment::Sptr env(void) { return RemoteClient::makeEnvironment(cis, cos, "managed"); }
};

//------------------------------------------------------------------ the remotely used class
static std::mutex liveMutex; static std::map<long, int> live; //id -> instances
struct Plain { int x = 1; }; //not serializable
struct Target
{
    const long id; long v = 0; std::string log; std::vector<std::shared_ptr<Target>> held; std::atomic<long> ticks{0};
    Target(const long i) : id(i) { std::lock_guard<std::mutex> l(liveMutex); live[id]++; }
    Target(const long i, const std::string &s) : Target(i) { log = s; if (s == "boom") { throw NotFoundException("no " + s); } }
    ~Target(void) { std::lock_guard<std::mutex> l(liveMutex); if (--live[id] == 0) live.erase(id); }
    long add(const long x) { v = (v * 31 + x) % 1000003; return v; } long value(void) const { return v; } long getId(void) const { return id; }
    std::string append(const std::string &s) { log = (log + s).substr(0, 60); return log; }
    Object echo(const Object &o) { return o; } int echoInt(int x) { return x; } double echoDouble(double x) { return x; } std::string echoString(const std::string &s) { return s; } std::complex<double> echoComplex(const std::complex<double> &c) { return c; } std::vector<int> echoInts(const std::vector<int> &x) { return x; } std::vector<std::string> echoStrings(const std::vector<std::string> &x) { return x; } ObjectKwargs echoKw(const ObjectKwargs &x) { return x; } ObjectVector echoVec(const ObjectVector &x) { return x; } DType echoDType(const DType &d) { return d; } BufferChunk echoBuffer(const BufferChunk &b) { return b; } Packet echoPacket(const Packet &p) { return p; } bool echoBool(bool b) { return b; } unsigned char echoByte(unsigned char b) { return b; }
    std::string two(const std::string &a, long b) { return a + std::to_string(b); } double three(double a, int b, const std::string &c) { return a + b + double(c.size()); }
    void fail(const std::string &m) { throw RuntimeException(m); } void failStd(const std::string &m) { throw std::logic_error(m); } int failInt(int x) { if (x % 2) throw x; return x; } void failProxy(const std::string &m) { throw ProxyExceptionMessage(m); }
    Plain plain(void) { return Plain(); } int takePlain(const Plain &p) { return p.x; } ObjectVector plainInside(void) { return ObjectVector{Object(1), Object(Plain())}; }
    void hold(const std::shared_ptr<Target> &t) { held.push_back(t); } std::shared_ptr<Target> getHeld(size_t i) { return held.at(i); } size_t numHeld(void) const { return held.size(); } void drop(void) { held.clear(); }
    long tick(void) { return ticks++; } long slow(long us, long x) { std::this_thread::sleep_for(std::chrono::microseconds(us)); return x; }
    static size_t aliveCount(void) { std::lock_guard<std::mutex> l(liveMutex); size_t n = 0; for (auto &p : live) n += size_t(p.second); return n; } static long twice(const long x) { return 2 * x; } static std::string join(const std::string &a, const std::string &b) { return a + "/" + b; }
};
static void reg(void)
{
    ManagedClass().registerConstructor<Plain>().commit("vf/Plain");
    ManagedClass().registerConstructor<Target, long>().registerConstructor<Target, long, std::string>()
#define M_(n) .registerMethod(#n, &Target::n)
        M_(add) M_(value) M_(getId) M_(append) M_(echo) M_(echoInt) M_(echoDouble) M_(echoString) M_(echoComplex) M_(echoInts) M_(echoStrings) M_(echoKw) M_(echoVec) M_(echoDType) M_(echoBuffer) M_(echoPacket) M_(echoBool) M_(echoByte) M_(two) M_(three) M_(fail) M_(failStd) M_(failInt) M_(failProxy) M_(plain) M_(takePlain) M_(plainInside) M_(hold) M_(getHeld) M_(numHeld) M_(drop) M_(tick) M_(slow)
#undef M_
        .registerField("v", &Target::v).registerStaticMethod("aliveCount", &Target::aliveCount).registerStaticMethod("twice", &Target::twice).registerStaticMethod("join", &Target::join).commit("vf/Target");
}
static std::set<long> liveIds(long base) { std::lock_guard<std::mutex> l(liveMutex); std::set<long> s; for (auto &p : live) if (p.first >= base && p.first < base + 1000000) s.insert(p.first); return s; }
static std::atomic<long> nextBase{0};
static std::string txt(const std::set<long> &s, long base) { std::string o; for (auto i : s) o += std::to_string(i - base) + " "; return o; }

//------------------------------------------------------------------ C18: one caller, compared with local calls step by step
struct Out { std::string kind, msg; Object val; };
template <typename F> static Out attempt(F f)
{
    Out o; try { o.val = f(); o.kind = "value"; } catch (const ProxyExceptionMessage &ex) { o.kind = "thrown"; o.msg = ex.message(); } catch (const Exception &ex) { o.kind = ex.name(); o.msg = ex.displayText(); } catch (const std::exception &ex) { o.kind = "foreign"; o.msg = ex.what(); } return o;
}
static Object randArg(Rng &r, const char *m)
{
    const std::string n(m); if (n == "echoInt") return Object(interestingInt<int>(r)); if (n == "echoDouble") return Object(interestingFloat<double>(r)); if (n == "echoString") return Object(randString(r)); if (n == "echoComplex") return Object(std::complex<double>(double(r.range(-9, 9)), 0.5)); if (n == "echoInts") return Object(randVec<int>(r, interestingInt<int>)); if (n == "echoStrings") return Object(randVec<std::string>(r, [](Rng &q) { return randString(q); })); if (n == "echoKw") { ObjectKwargs k; for (size_t i = r.below(5); i; i--) k[randString(r)] = randObject(r, 1); return Object(k); } if (n == "echoVec") { ObjectVector k; for (size_t i = r.below(5); i; i--) k.push_back(randObject(r, 2)); return Object(k); } if (n == "echoDType") return Object(randDType(r)); if (n == "echoBuffer") return Object(randBuffer(r)); if (n == "echoPacket") return Object(randPacket(r, 1)); if (n == "echoBool") return Object(bool(r.flip())); if (n == "echoByte") return Object((unsigned char)r.next()); return randObject(r, 3);
}
static void sameCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; std::string sig;
    {
        Session s(r); s.start(); auto renv = s.env(), lenv = ProxyEnvironment::make("managed");
        VF_CHECK(renv->getName() == "managed" && renv->getUniquePid() == ProxyEnvironment::getLocalUniquePid() && renv->getPeeringAddress() == "peer", "environment", renv->getName() << " " << renv->getPeeringAddress());
        auto rc = renv->findProxy("vf/Target"), lc = lenv->findProxy("vf/Target"); VF_CHECK(rc.getClassName() == lc.getClassName(), "class-name", rc.getClassName());
        struct Pair { Proxy l, r; long lid, rid; }; std::vector<Pair> ps; long next = 0; std::map<long, std::vector<long>> holds; //remote instances only are checked for lifetime; local ids are the odd ones
        auto check = [&]{ std::set<long> want; std::vector<long> todo; for (auto &p : ps) { todo.push_back(p.lid); todo.push_back(p.rid); } while (!todo.empty()) { const long i = todo.back(); todo.pop_back(); if (!want.insert(i).second) continue; for (auto h : holds[i]) todo.push_back(h); } const auto got = liveIds(base); VF_CHECK(got == want, "lifetime", "alive " << txt(got, base) << " referenced " << txt(want, base) << " after " << sig); count("lifetime_checks"); };
        auto cmp = [&](const char *what, const Out &a, const Out &b) { //a local, b remote
            sig += std::string(what) + ";"; if (a.kind == "value") VF_CHECK(b.kind == "value" && deepEq(a.val, b.val), std::string("result:") + what, "local " << a.val.toString().substr(0, 300) << " remote " << b.kind << " " << b.msg << " " << b.val.toString().substr(0, 300)); else if (a.kind == "thrown") VF_CHECK(b.kind == "thrown" && b.msg == a.msg, std::string("message:") + what, "local " << a.msg << " remote " << b.kind << " " << b.msg); else VF_CHECK(b.kind == a.kind && b.msg.find(a.msg) != std::string::npos, std::string("error:") + what, "local " << a.kind << " " << a.msg << " remote " << b.kind << " " << b.msg);
            count(a.kind == "value" ? "same_results" : a.kind == "thrown" ? "same_messages" : "same_errors"); };
        const int steps = int(r.range(15, 50)); for (int k = 0; k < steps; k++)
        {
            const unsigned op = ps.empty() ? 0 : unsigned(r.below(19)); Pair *p = ps.empty() ? nullptr : &ps[r.below(ps.size())]; const std::string str = randString(r); const long n = long(r.range(-1000, 1000));
            auto both = [&](const char *what, std::function<Object(Proxy &)> f) { auto a = attempt([&]{ return f(p->l); }); auto b = attempt([&]{ return f(p->r); }); cmp(what, a, b); };
            switch (op)
            {
            case 0: { Pair q; q.lid = base + 2 * next + 1; q.rid = base + 2 * next; next++; q.l = lc.call("shared", q.lid); q.r = rc.call("shared", q.rid); ps.push_back(q); sig += "new;"; break; }
            case 1: both("add", [&](Proxy &x) { return x.call("add", n).toObject(); }); break;
            case 2: both("append", [&](Proxy &x) { return x.call("append", str).toObject(); }); break;
            case 3: case 4: case 5: case 6: { static const char *names[] = {"echo", "echoInt", "echoDouble", "echoString", "echoComplex", "echoInts", "echoStrings", "echoKw", "echoVec", "echoDType", "echoBuffer", "echoPacket", "echoBool", "echoByte"}; const char *m = names[r.below(14)]; const auto arg = randArg(r, m); both(m, [&](Proxy &x) { auto px = x.getEnvironment()->convertObjectToProxy(arg); return x.getHandle()->call(m, &px, 1).toObject(); }); if (r.chance(1, 4)) both("roundtrip", [&](Proxy &x) { return x.getEnvironment()->convertObjectToProxy(arg).toObject(); }); break; }
            case 7: both("two", [&](Proxy &x) { return x.call("two", str, n).toObject(); }); both("three", [&](Proxy &x) { return x.call("three", 0.5, int(n), str).toObject(); }); break;
            case 8: both("fail", [&](Proxy &x) { return x.call("fail", str).toObject(); }); both("failStd", [&](Proxy &x) { return x.call("failStd", str).toObject(); }); break;
            case 9: both("failInt", [&](Proxy &x) { int i = int(n); return x.call("failInt", i).toObject(); }); both("failProxy", [&](Proxy &x) { return x.call("failProxy", str).toObject(); }); break;
            case 10: both("no-such", [&](Proxy &x) { return x.call("nosuch", str).toObject(); }); both("bad-arg", [&](Proxy &x) { return x.call("echoInt", str).toObject(); }); both("bad-count", [&](Proxy &x) { return x.call("two", str).toObject(); }); break;
            case 11: { auto a = attempt([&]{ return lenv->findProxy("vf/Nope").toObject(); }), b = attempt([&]{ return renv->findProxy("vf/Nope").toObject(); }); cmp("find", a, b); a = attempt([&]{ lc.call("shared", base + 999999, "boom"); return Object(); }); b = attempt([&]{ rc.call("shared", base + 999999, "boom"); return Object(); }); cmp("constructor", a, b); break; }
            case 12: { long i = n; auto a = attempt([&]{ return lc.call("twice", i).toObject(); }), b = attempt([&]{ return rc.call("twice", i).toObject(); }); cmp("static", a, b); a = attempt([&]{ return lc.call("join", str, "x").toObject(); }); b = attempt([&]{ return rc.call("join", str, "x").toObject(); }); cmp("static", a, b); break; }
            case 13: { long i = n; both("field", [&](Proxy &x) { x.set("v", i); return x.get("v").toObject(); }); break; }
            case 14: { const size_t i = size_t(p - ps.data()); if (i + 1 >= ps.size()) break; auto &q = ps[size_t(r.range(int(i) + 1, int(ps.size()) - 1))]; if (holds[p->rid].size() > 3 || q.rid <= p->rid) break; p->l.call("hold", q.l); p->r.call("hold", q.r); holds[p->lid].push_back(q.lid); holds[p->rid].push_back(q.rid); sig += "hold;"; count("proxies_passed"); break; }
            case 15: { auto &h = holds[p->rid]; if (h.empty()) { both("empty", [&](Proxy &x) { size_t i = 0; return x.call("getHeld", i).toObject(); }); break; } size_t i = r.below(h.size()); Pair q; q.l = p->l.call("getHeld", i); q.r = p->r.call("getHeld", i); q.lid = holds[p->lid][i]; q.rid = h[i]; VF_CHECK(q.r.call("getId").convert<long>() == q.rid, "wrong-object", ""); for (auto &o : ps) if (o.rid == q.rid) { o.r.call("add", n); o.l.call("add", n); VF_CHECK(q.r.call("value").convert<long>() == o.l.call("value").convert<long>(), "wrong-object", "a returned proxy is not the object passed in"); count("aliases_checked"); break; } ps.push_back(q); sig += "get;"; break; }
            case 16: p->l.call("drop"); p->r.call("drop"); holds[p->lid].clear(); holds[p->rid].clear(); sig += "drop;"; break;
            case 17: { //what cannot be sent fails that call only
                Plain pl; auto e = attempt([&]{ return p->r.call("takePlain", pl).toObject(); }); VF_CHECK(e.kind != "value" && e.kind != "foreign", "unserializable-argument", e.kind << " " << e.msg); auto ret = p->r.call("plain"); VF_CHECK(ret.getClassName() == p->l.call("plain").getClassName(), "class-name", ret.getClassName()); e = attempt([&]{ return ret.toObject(); }); VF_CHECK(e.kind != "value" && e.kind != "foreign", "unserializable-result", e.kind); VF_CHECK(p->r.call("takePlain", ret).convert<int>() == 1, "remote-argument", ""); auto in = p->r.call("plainInside"); e = attempt([&]{ return in.toObject(); }); VF_CHECK(e.kind != "value" && e.kind != "foreign", "unserializable-result", e.kind);
                both("after-unserializable", [&](Proxy &x) { return x.call("value").toObject(); }); count("unserializable"); break; }
            default: { const size_t i = size_t(p - ps.data()); if (r.flip()) { Proxy cp = ps[i].r; Proxy moved(std::move(cp)); ps[i].r = Proxy(); ps[i].r = moved; check(); } ps.erase(ps.begin() + long(i)); sig += "release;"; count("releases"); break; }
            }
            if (!ps.empty()) { auto &q = ps[r.below(ps.size())]; both; auto a = q.l.call("value").convert<long>(), b = q.r.call("value").convert<long>(); VF_CHECK(a == b, "state", a << " vs " << b << " after " << sig); if (r.chance(1, 6)) { Proxy x = lenv->convertObjectToProxy(Object(n)), y = renv->convertObjectToProxy(Object(n)), y2 = renv->convertObjectToProxy(Object(n + 1)); VF_CHECK(x.toString() == y.toString() && x.hashCode() == y.hashCode() && x.getClassName() == y.getClassName(), "describe", x.toString() << " " << y.toString()); VF_CHECK(y.compareTo(y2) < 0 && y2.compareTo(y) > 0 && y.compareTo(renv->convertObjectToProxy(Object(n))) == 0 && y.compareTo(x) == 0, "compare", n); count("descriptions"); } }
            check(); progress();
        }
        ps.clear(); check(); rc = Proxy(); renv.reset(); VF_CHECK(waitUntil([&]{ return s.over.load(); }), "session-end", "closing the environment did not end the session"); VF_CHECK(s.error.empty(), "session-error", s.error);
    }
    distinct(sig); if (c < 2) sample(sig);
}

//------------------------------------------------------------------ C18: many callers on one connection
static void worker(Rng r, ProxyEnvironment::Sptr env, Proxy shared, long base, int th, int calls, std::vector<long> &ticks, std::atomic<long> *acked)
{
    try
    {
        long id = base + 1000 + th * 1000; Proxy cls = env->findProxy("vf/Target"), mine = cls.call("shared", id); long model = 0; const std::string me = "t" + std::to_string(th) + "."; std::vector<Proxy> keep;
        for (int k = 0; k < calls; k++)
        {
            const std::string tag = me + std::to_string(k); progress();
            switch (r.below(8))
            {
            case 0: { long x = long(r.below(1000)); model = (model * 31 + x) % 1000003; const long got = mine.call("add", x).convert<long>(); VF_CHECK(got == model, "reply-mixup", tag << " add gave " << got << " want " << model); break; }
            case 1: { const std::string big = tag + std::string(r.chance(1, 5) ? r.below(5000) : r.below(20), 'x'); const auto got = mine.call("echoString", big).convert<std::string>(); VF_CHECK(got == big, "reply-mixup", tag << " got " << got.substr(0, 40)); break; }
            case 2: { std::string m; try { mine.call("fail", tag); } catch (const ProxyExceptionMessage &ex) { m = ex.message(); } VF_CHECK(m.find(tag) != std::string::npos, "reply-mixup", tag << " error " << m); break; }
            case 3: { const long t = shared.call("tick").convert<long>(); ticks.push_back(t); break; }
            case 4: { long us = long(r.below(300)), x = th * 100000 + k; VF_CHECK(mine.call("slow", us, x).convert<long>() == x, "reply-mixup", tag << " slow"); break; }
            case 5: { auto p = env->convertObjectToProxy(Object(tag)); VF_CHECK(p.convert<std::string>() == tag, "reply-mixup", tag << " conversion"); if (keep.size() < 5) keep.push_back(p); else keep[r.below(5)] = p; break; }
            case 6: { if (!keep.empty()) { auto s = keep.back().toString(); VF_CHECK(s.find(me) != std::string::npos, "reply-mixup", tag << " toString " << s); } break; }
            default: { long x = long(r.below(1000)); VF_CHECK(cls.call("twice", x).convert<long>() == 2 * x, "reply-mixup", tag << " static"); break; }
            }
            if (acked) acked->fetch_add(1, std::memory_order_relaxed);
        }
    }
    catch (const Exception &ex) { violation("caller-failed", ex.displayText()); }
    catch (const std::exception &ex) { violation("caller-failed", ex.what()); }
}
static void manyCallers(Rng &r, ProxyEnvironment::Sptr env, long base)
{
    const int n = int(r.range(2, 7)), calls = int(r.range(10, 40)); Proxy shared = env->findProxy("vf/Target").call("shared", base); std::vector<std::vector<long>> ticks((size_t(n))); std::vector<std::thread> ts; for (int i = 0; i < n; i++) { auto q = r.fork(); ts.emplace_back([&, q, i]{ worker(q, env, shared, base, i, calls, ticks[size_t(i)], nullptr); }); } for (auto &t : ts) t.join();
    std::set<long> all; size_t total = 0; for (auto &v : ticks) for (size_t i = 0; i < v.size(); i++) { total++; all.insert(v[i]); if (i) VF_CHECK(v[i] > v[i - 1], "call-order", v[i - 1] << " then " << v[i]); } VF_CHECK(all.size() == total && (all.empty() || *all.rbegin() == long(total) - 1), "call-count", total << " calls, " << all.size() << " distinct effects"); VF_CHECK(shared.call("tick").convert<long>() == long(total), "call-count", "executed a different number of times than called");
    const auto l = liveIds(base); VF_CHECK(l == std::set<long>{base}, "lifetime", txt(l, base)); shared = Proxy(); VF_CHECK(liveIds(base).empty(), "lifetime", "object outlives the last reference"); count("concurrent_calls", uint64_t(n) * uint64_t(calls)); count("callers", uint64_t(n)); distinct(hash64(std::to_string(total) + std::to_string(base) + std::to_string(r.next()))); count("exactly_once_effects", total);
}
static void threadsCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; Session s(r), s2(r); s.start(); const bool second = r.chance(1, 3); std::thread other; const long base2 = (nextBase += 1) * 1000000;
    if (second) { s2.start(); auto q = r.fork(); other = std::thread([&, q]() mutable { manyCallers(q, s2.env(), base2); count("second_connections"); }); }
    manyCallers(r, s.env(), base); if (second) other.join(); VF_CHECK(waitUntil([&]{ return s.over.load(); }), "session-end", "closing the environment did not end the session"); VF_CHECK(s.error.empty(), "session-error", s.error); if (c < 1) sample("threads over one connection: unique echoes, a shared counter, errors, object creation and release");
}
static void tcpCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; Poco::Net::ServerSocket ss(Poco::Net::SocketAddress("127.0.0.1", 0)); std::string err;
    std::thread srv([&]{ try { auto sock = ss.acceptConnection(); sock.setNoDelay(true); Poco::Net::SocketStream st(sock); RemoteHandler h("tcp"); h.runHandler(st); } catch (const Exception &ex) { err = ex.displayText(); } catch (const std::exception &ex) { err = ex.what(); } });
    { RemoteClient cl("tcp://127.0.0.1:" + std::to_string(ss.address().port())); VF_CHECK(bool(cl), "client", "not connected"); auto env = cl.makeEnvironment("managed"); cl = RemoteClient(); VF_CHECK(env->getPeeringAddress() == "tcp", "environment", env->getPeeringAddress()); VF_CHECK(RemoteClient::lookupIpFromNodeId(env->getNodeId()) == "127.0.0.1", "node-lookup", RemoteClient::lookupIpFromNodeId(env->getNodeId())); manyCallers(r, env, base); }
    srv.join(); VF_CHECK(err.empty(), "session-error", err); count("tcp_sessions"); if (c < 1) sample("the same over a loopback socket");
}

//------------------------------------------------------------------ C19: cut connections
//! one fixed conversation of a single caller; returns how many steps were completed
struct Cut { bool up; uint64_t at; unsigned tail; bool both; };
static int conversation(Rng r, ProxyEnvironment::Sptr env, long base, const std::function<void(int)> &ok)
{
    int k = 0; Proxy cls = env->findProxy("vf/Target"); ok(k++); Proxy a = cls.call("shared", base + 1); ok(k++); long model = 0;
    for (int i = 0; i < 6; i++)
    {
        long x = long(r.below(1000)); model = (model * 31 + x) % 1000003; VF_CHECK(a.call("add", x).convert<long>() == model, "wrong-reply", "add " << i); ok(k++); const std::string s = "s" + std::to_string(i) + std::string(r.below(1500), 'q'); VF_CHECK(a.call("echoString", s).convert<std::string>() == s, "wrong-reply", "echo"); ok(k++);
        std::string m; try { a.call("fail", s.substr(0, 20)); } catch (const ProxyExceptionMessage &ex) { m = ex.message(); } VF_CHECK(m.find(s.substr(0, 20)) != std::string::npos, "wrong-reply", "message " << m); ok(k++); { Proxy t = env->convertObjectToProxy(Object(ObjectVector{Object(s), Object(i)})); VF_CHECK(t.toObject().extract<ObjectVector>().at(1).convert<int>() == i, "wrong-reply", "object"); } ok(k++);
    }
    return k;
}
static uint64_t fullLen[2];
static void cutCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; const uint64_t convSeed = 77 + st().seed;
    if (!fullLen[0]) { Session s(r); s.start(); { auto env = s.env(); conversation(Rng(convSeed), env, base + 500000, [](int) {}); } waitUntil([&]{ return s.over.load(); }); fullLen[0] = s.up.carried(); fullLen[1] = s.down.carried(); VF_CHECK(s.error.empty(), "session-error", s.error); count("conversation_bytes_up", fullLen[0]); count("conversation_bytes_down", fullLen[1]); }
    //positions are walked with a stride coprime to everything so that a run of cases spreads over both directions
    const uint64_t span = fullLen[0] + fullLen[1], pos = (c * 7919 + st().seed * 104729) % span; Cut cut; cut.up = pos < fullLen[0]; cut.at = cut.up ? pos : pos - fullLen[0]; cut.tail = r.chance(1, 3) ? unsigned(r.range(1, 40)) : 0; cut.both = r.flip();
    Session s(r), keep(r); keep.start(); Proxy survivor; ProxyEnvironment::Sptr kenv = keep.env(); survivor = kenv->findProxy("vf/Target").call("shared", base); survivor.call("add", long(5));
    Pipe &p = cut.up ? s.up : s.down; Pipe &q = cut.up ? s.down : s.up; p.limit = cut.at; p.tail = cut.tail; p.salt = r.next(); if (cut.both) p.onCut = [&q]{ q.close(); }; s.start();
    int done = 0; std::string err; bool foreign = false, finished = false; std::atomic<bool> returned{false};
    std::thread cl([&]{ try { auto env = s.env(); Proxy held; conversation(Rng(convSeed), env, base, [&](int) { done++; progress(); }); finished = true; } catch (const Exception &ex) { err = ex.displayText(); } catch (const std::exception &ex) { err = ex.what(); foreign = true; } returned = true; progress(); });
    const bool ret = waitUntil([&]{ return returned.load(); }); VF_CHECK(ret, "caller-stuck", "direction " << (cut.up ? "up" : "down") << " cut at " << cut.at << " of " << (cut.up ? fullLen[0] : fullLen[1])); if (!ret) { s.up.close(); s.down.close(); }
    cl.join(); VF_CHECK(finished || !err.empty(), "silent-failure", ""); VF_CHECK(!foreign, "error-type", err);
    const bool ended = waitUntil([&]{ return s.over.load(); }); VF_CHECK(ended, "session-stuck", "cut at " << cut.at); count(finished ? "conversations_completed" : "conversations_failed"); count(cut.up ? "cuts_of_requests" : "cuts_of_replies"); if (cut.tail) count("garbled_tails");
    VF_CHECK(survivor.call("value").convert<long>() == 5 && survivor.call("add", long(1)).convert<long>() == 5 * 31 + 1, "other-session", "another session was disturbed"); distinct(std::to_string(cut.up) + ":" + std::to_string(cut.at)); if (c < 2) sample(std::string(cut.up ? "requests" : "replies") + " cut after " + std::to_string(cut.at) + " bytes: " + (finished ? "completed" : err.substr(0, 200)));
    survivor = Proxy(); kenv.reset();
}
//! several callers waiting when the connection goes away
static void breakCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; Session s(r); s.start(); const int n = int(r.range(2, 7)); struct Rec { std::atomic<bool> done{false}; long acked = 0, tried = 0; std::string err; bool foreign = false, late = false; }; std::vector<Rec> rec((size_t(n))); const unsigned how = unsigned(r.below(6)); std::atomic<long> total{0}; const long when = long(r.range(0, 12 * n)); const bool slow = r.flip(); std::atomic<bool> broken{false}; long executed = 0, acked = 0, tried = 0; std::shared_ptr<Target> local = std::make_shared<Target>(base);
    if (how == 3) { s.down.limit = uint64_t(r.range(300, 9000)); s.down.tail = r.flip() ? unsigned(r.range(1, 60)) : 0; s.down.salt = r.next(); } if (how == 4) { s.up.limit = uint64_t(r.range(300, 9000)); s.up.tail = r.flip() ? unsigned(r.range(1, 60)) : 0; s.up.salt = r.next(); }
    { ProxyEnvironment::Sptr env; Proxy shared; std::string e = caught([&]{ env = s.env(); shared = env->convertObjectToProxy(Object(1)); shared = env->findProxy("vf/Target").call("shared", base + 1); });
      if (e.empty())
      {
        std::vector<std::thread> ts; for (int i = 0; i < n; i++) { auto q = r.fork(); ts.emplace_back([&, q, i]() mutable { Rec &me = rec[size_t(i)]; try { for (int k = 0; k < 4000; k++) { const bool afterBreak = broken.load(); me.tried++; long x = i * 10000 + k; if (q.chance(1, 3)) { long us = slow ? long(q.below(1500)) : 0; if (shared.call("slow", us, x).convert<long>() != x) violation("wrong-reply", "slow"); } else { const std::string t = "c" + std::to_string(x) + std::string(q.below(60), 'z'); if (shared.call("echoString", t).convert<std::string>() != t) violation("wrong-reply", "echo"); } if (afterBreak && how == 0) me.late = true; me.acked++; total.fetch_add(1, std::memory_order_relaxed); progress(); } } catch (const Exception &ex) { me.err = ex.displayText(); } catch (const std::exception &ex) { me.err = ex.what(); me.foreign = true; } me.done = true; progress(); }); }
        if (how <= 2 || how == 5) { waitUntil([&]{ return total.load(std::memory_order_relaxed) >= when || s.over.load(); }); std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); if (how == 0) { s.up.close(); s.down.close(); } else if (how == 1) s.down.close(); else if (how == 2) s.up.close(); else { std::lock_guard<std::mutex> l(s.up.m); s.up.refuse = true; } broken = true; }
        const bool all = waitUntil([&]{ for (auto &x : rec) if (!x.done.load()) return false; return true; }); VF_CHECK(all, "caller-stuck", "how " << how << ", " << n << " callers"); if (!all) { s.up.close(); s.down.close(); } for (auto &t : ts) t.join();
        for (auto &x : rec) { VF_CHECK(!x.err.empty(), "silent-failure", "a caller went on after the connection was lost"); VF_CHECK(!x.foreign, "error-type", x.err); acked += x.acked; tried += x.tried; count("callers_failed"); }
        //later calls fail as well, at once
        for (int k = 0; k < 3; k++) { std::atomic<bool> fin{false}; std::string e2; std::thread t([&]{ e2 = caught([&]{ shared.call("value"); }); fin = true; progress(); }); const bool ok = waitUntil([&]{ return fin.load(); }); VF_CHECK(ok, "caller-stuck", "a call made after the failure"); if (!ok) { s.up.close(); s.down.close(); } t.join(); VF_CHECK(!e2.empty(), "late-call-succeeded", ""); count("late_calls"); }
      } else count("setup_failed");
    }
    if (how == 5) { s.up.close(); count("write_failures"); } //only the client's writes failed: the served side learns of it now
    VF_CHECK(waitUntil([&]{ return s.over.load(); }), "session-stuck", "how " << how); (void)executed; (void)tried; count("connections_broken"); distinct(std::to_string(how) + ":" + std::to_string(acked) + ":" + std::to_string(n) + ":" + std::to_string(r.next())); count("calls_acknowledged", uint64_t(acked)); if (c < 2) sample("break kind " + std::to_string(how) + " with " + std::to_string(n) + " callers after " + std::to_string(acked) + " replies: " + rec[0].err.substr(0, 200));
}
//! loopback sockets closed by either side at any moment
static void tcpBreakCase(Rng &r, uint64_t c)
{
    const long base = (nextBase += 1) * 1000000; Poco::Net::ServerSocket ss(Poco::Net::SocketAddress("127.0.0.1", 0)); const int n = int(r.range(1, 5)); const bool rst = r.flip(); const int when = int(r.range(1, 60)); std::atomic<bool> over{false};
    std::thread srv([&]{ try { auto sock = ss.acceptConnection(); Poco::Net::SocketStream st(sock); RemoteHandler h("tcp"); for (int k = 0; k < when; k++) if (h.runHandlerOnce(st, st)) break; if (rst) sock.setLinger(true, 0); st.close(); sock.close(); } catch (const std::exception &) {} over = true; progress(); });
    std::atomic<int> left{n}; std::vector<std::string> errs((size_t(n))); std::atomic<bool> foreign{false};
    { ProxyEnvironment::Sptr env; Proxy t; const auto e = caught([&]{ RemoteClient cl("tcp://127.0.0.1:" + std::to_string(ss.address().port())); env = cl.makeEnvironment("managed"); t = env->findProxy("vf/Target").call("shared", base); });
      if (e.empty()) { std::vector<std::thread> ts; for (int i = 0; i < n; i++) ts.emplace_back([&, i]{ try { for (int k = 0; k < 1000; k++) { const std::string x = "c" + std::to_string(i) + "." + std::to_string(k); if (t.call("echoString", x).convert<std::string>() != x) violation("wrong-reply", "tcp"); progress(); } } catch (const Exception &ex) { errs[size_t(i)] = ex.displayText(); } catch (const std::exception &ex) { errs[size_t(i)] = ex.what(); foreign = true; } left--; progress(); }); const bool ok = waitUntil([&]{ return left.load() == 0; }); VF_CHECK(ok, "caller-stuck", "tcp"); if (!ok) { fprintf(stderr, "stuck caller\n"); fflush(stderr); _exit(0); } for (auto &x : ts) x.join(); for (auto &x : errs) VF_CHECK(!x.empty(), "silent-failure", "tcp"); VF_CHECK(!foreign, "error-type", errs[0]); } }
    srv.join(); count("tcp_breaks"); distinct("tcp" + std::to_string(when) + (rst ? "r" : "f") + std::to_string(n)); if (c < 1) sample("socket closed after " + std::to_string(when) + " requests");
}
//------------------------------------------------------------------ C18: proxies of several processes mixed in one call
//! the child: serve loopback connections until the parent goes away
static int serveProcess(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL); initLib(); reg(); Poco::Net::ServerSocket ss(Poco::Net::SocketAddress("127.0.0.1", 0)); const std::string port = std::to_string(ss.address().port()) + "\n"; if (write(3, port.data(), port.size()) != ssize_t(port.size())) _exit(1);
    std::thread([]{ char c; while (read(4, &c, 1) > 0) {} _exit(0); }).detach();
    while (true) { auto sock = ss.acceptConnection(); sock.setNoDelay(true); std::thread([sock]() mutable { try { Poco::Net::SocketStream st(sock); RemoteHandler h("child"); h.runHandler(st); } catch (const std::exception &) {} }).detach(); }
}
static std::string childUri(const int which)
{
    static std::string uris[2]; auto &u = uris[which]; if (!u.empty()) return u;
    int out[2], in[2]; if (pipe(out) || pipe(in)) { fprintf(stderr, "pipe failed\n"); _exit(3); }
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); const int base = 40; //move clear of 3 and 4 first
    const int o = fcntl(out[1], F_DUPFD, base), i = fcntl(in[0], F_DUPFD, base); fcntl(out[0], F_SETFD, FD_CLOEXEC); fcntl(in[1], F_SETFD, FD_CLOEXEC); close(out[1]); close(in[0]); posix_spawn_file_actions_adddup2(&fa, o, 3); posix_spawn_file_actions_adddup2(&fa, i, 4); posix_spawn_file_actions_addclose(&fa, o); posix_spawn_file_actions_addclose(&fa, i);
    char self[4096]; const ssize_t n = readlink("/proc/self/exe", self, sizeof(self) - 1); if (n <= 0) _exit(3); self[n] = 0; char name[] = "serve", arg[] = "--serve"; char *av[] = {name, arg, nullptr}; pid_t pid = 0; if (posix_spawn(&pid, self, &fa, nullptr, av, environ)) { fprintf(stderr, "spawn failed\n"); _exit(3); } close(o); close(i);
    std::string port; char ch; while (read(out[0], &ch, 1) == 1 && ch != '\n') port += ch; if (port.empty()) { fprintf(stderr, "the served process did not start\n"); _exit(3); } progress(); return u = "tcp://127.0.0.1:" + port; //in[1] stays open until this process ends
}
static void peersCase(Rng &r, uint64_t c)
{
    struct Place { std::string name; ProxyEnvironment::Sptr env; Proxy cls; int process; }; std::vector<Place> pl; std::string sig;
    auto add = [&](const std::string &n, ProxyEnvironment::Sptr e, int process) { pl.push_back({n, e, e->findProxy("vf/Target"), process}); };
    Session s(r); const int shape = int(r.below(3)); RemoteClient a(childUri(0), 10000000); add("A", a.makeEnvironment("managed"), 1); RemoteClient a2(childUri(0), 10000000); add("A2", a2.makeEnvironment("managed"), 1); if (shape) { RemoteClient b(childUri(1), 10000000); add("B", b.makeEnvironment("managed"), 2); } if (shape == 2) { s.start(); add("session", s.env(), 0); } add("local", ProxyEnvironment::make("managed"), 0);
    for (auto &x : pl) for (auto &y : pl) VF_CHECK((x.env->getUniquePid() == y.env->getUniquePid()) == (x.process == y.process), "environment", "process identity of " << x.name << " and " << y.name);
    const long base = (nextBase += 1) * 1000000; long next = 0; struct Obj { Proxy p; size_t at; long id; std::vector<long> held; }; std::vector<Obj> os; std::map<long, long> v; size_t startCount[3] = {0, 0, 0}; for (auto &x : pl) startCount[x.process] = x.cls.call("aliveCount").convert<size_t>();
    const int steps = int(r.range(15, 40)); for (int k = 0; k < steps; k++)
    {
        const size_t i = r.below(pl.size()), j = r.below(pl.size()); Place &x = pl[i], &y = pl[j]; progress(); const auto what = x.name + ">" + y.name;
        switch (os.empty() ? 0 : r.below(8))
        {
        case 0: { Obj o; o.at = i; o.id = base + next++; o.p = x.cls.call("shared", o.id); v[o.id] = 0; os.push_back(o); break; }
        case 1: case 2: case 3: { //a value made in one environment is an argument of a call in another
            const auto val = randObject(r, 2); Proxy px = x.env->convertObjectToProxy(val); Obj *t = nullptr; for (auto &o : os) if (o.at == j) t = &o; Proxy target = t ? t->p : y.cls.call("shared", base + 900000); auto res = attempt([&]{ return target.getHandle()->call("echo", &px, 1).toObject(); }); if (res.kind == "value" && res.val.type() == typeid(Object)) { const Object inner = res.val.extract<Object>(); res.val = inner; } VF_CHECK(res.kind == "value" && deepEq(res.val, val), "mixed-argument", what << ": sent " << val.toString().substr(0, 200) << " got " << res.kind << " " << res.msg << " " << res.val.toString().substr(0, 200)); count(x.process == y.process ? "arguments_same_process" : "arguments_across_processes"); sig += "e" + what; break; }
        case 4: { const long n = long(r.range(-9, 9)), m = n + long(r.range(-1, 1)); Proxy p = x.env->convertObjectToProxy(Object(n)), q = y.env->convertObjectToProxy(Object(m)); const int got = p.compareTo(q); VF_CHECK((got < 0) == (n < m) && (got > 0) == (n > m), "mixed-compare", what << " " << n << " to " << m << " gave " << got); count("compares_across"); sig += "c" + what; break; }
        case 5: { auto &o = os[r.below(os.size())]; const long n = long(r.below(1000)); v[o.id] = (v[o.id] * 31 + n) % 1000003; VF_CHECK(o.p.call("add", n).convert<long>() == v[o.id], "state", what); break; }
        case 6: { //an object handed to another one in the same process stays the same object, over whichever connection
            auto &o = os[r.below(os.size())]; auto &h = os[r.below(os.size())]; const bool same = pl[o.at].process == pl[h.at].process; if (same) { if (pl[o.at].process == 0 && o.at != h.at) break; if (h.held.size() > 3 || h.id >= o.id) break; const size_t idx = h.p.call("numHeld").convert<size_t>(); h.p.call("hold", o.p); h.held.push_back(o.id); Proxy back = h.p.call("getHeld", idx); VF_CHECK(back.call("getId").convert<long>() == o.id, "wrong-object", what); const long n = long(r.below(1000)); v[o.id] = (v[o.id] * 31 + n) % 1000003; back.call("add", n); VF_CHECK(o.p.call("value").convert<long>() == v[o.id], "wrong-object", "a proxy passed over another connection is a different object"); count(o.at == h.at ? "objects_same_connection" : "objects_other_connection"); sig += "h" + pl[o.at].name + pl[h.at].name; }
            else { auto e = attempt([&]{ return h.p.call("hold", o.p).toObject(); }); VF_CHECK(e.kind != "value" && e.kind != "foreign", "unsendable-object", e.kind); VF_CHECK(o.p.call("value").convert<long>() == v[o.id] && h.p.call("value").convert<long>() == v[h.id], "state", "after an object that cannot move between processes"); count("unsendable_objects"); } break; }
        default: { os.erase(os.begin() + long(r.below(os.size()))); count("releases"); break; }
        }
    }
    //nothing in any process outlives the references
    os.clear(); for (auto &x : pl) { const size_t n = x.cls.call("aliveCount").convert<size_t>(); VF_CHECK(n == startCount[x.process], "lifetime", x.name << ": " << n << " objects alive, " << startCount[x.process] << " before"); count("lifetime_checks"); }
    pl.clear(); if (shape == 2) waitUntil([&]{ return s.over.load(); }); distinct(sig); if (c < 2) sample("environments of " + std::to_string(shape ? 3 : 2) + " processes: " + sig.substr(0, 200));
}
int main(int argc, char **argv) { if (argc == 2 && std::string(argv[1]) == "--serve") return serveProcess(); initLib(); reg(); return run(argc, argv, {{"same", sameCase}, {"threads", threadsCase}, {"peers", peersCase}, {"tcp", tcpCase}, {"cut", cutCase}, {"break", breakCase}, {"tcpbreak", tcpBreakCase}}); }
