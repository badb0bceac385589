#pragma once
// Pothos-specific helpers: init, random object generation, library-independent deep equality
#include "vf.hpp"
#include <Pothos/Init.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/ThreadPool.hpp>
#include <Poco/Logger.h>
#include <Poco/Channel.h>
#include <Poco/Message.h>
#include <cmath>
#include <complex>
#include <limits>

namespace vf {

//! swallow all log output; remember the error-level messages per source
class CountChannel : public Poco::Channel
{
public:
    static CountChannel &get(void) { static CountChannel *c = new CountChannel(); return *c; }
    void log(const Poco::Message &msg)
    {
        if (msg.getPriority() > Poco::Message::PRIO_ERROR) return;
        std::lock_guard<std::mutex> l(m);
        counts[msg.getSource()]++;
        last[msg.getSource()] = msg.getText();
    }
    uint64_t errors(const std::string &source) { std::lock_guard<std::mutex> l(m); auto it = counts.find(source); return it == counts.end() ? 0 : it->second; }
    uint64_t total(void) { std::lock_guard<std::mutex> l(m); uint64_t n = 0; for (auto &p : counts) n += p.second; return n; }
    std::string lastText(void) { std::lock_guard<std::mutex> l(m); std::string s; for (auto &p : last) s += p.first + ": " + p.second + "; "; return s; }
private:
    std::mutex m;
    std::map<std::string, uint64_t> counts;
    std::map<std::string, std::string> last;
};

inline void quietLogs(void)
{
    auto &c = CountChannel::get();
    c.duplicate();
    Poco::Logger::setChannel("", &c);
    Poco::Logger::setLevel("", Poco::Message::PRIO_ERROR);
}

inline void initLib(void)
{
    Pothos::init();
    quietLogs();
}

//! run f; "" when it returned, otherwise a description of the exception
template <typename Fcn>
inline std::string caught(Fcn f)
{
    try { f(); return ""; }
    catch (const Pothos::Exception &e) { auto s = e.displayText(); return s.empty() ? "Pothos::Exception" : s; }
    catch (const std::exception &e) { return std::string("std:") + e.what(); }
    catch (...) { return "unknown exception"; }
}

//! integers that matter: around powers of two, signs, extremes
template <typename T>
inline T interestingInt(Rng &r)
{
    const unsigned bits = sizeof(T) * 8;
    switch (r.below(6))
    {
    case 0: return T(r.next());
    case 1: return std::numeric_limits<T>::min();
    case 2: return std::numeric_limits<T>::max();
    case 3: return T(r.range(-3, 3));
    default:
    {
        uint64_t v = uint64_t(1) << r.below(bits);
        v += uint64_t(r.range(-2, 2));
        if (r.flip()) v = 0 - v;
        return T(v);
    }
    }
}

template <typename T>
inline T interestingFloat(Rng &r)
{
    switch (r.below(10))
    {
    case 0: return T(0.0);
    case 1: return T(-0.0);
    case 2: return std::numeric_limits<T>::infinity();
    case 3: return -std::numeric_limits<T>::infinity();
    case 4: return std::numeric_limits<T>::quiet_NaN();
    case 5: return std::numeric_limits<T>::denorm_min() * T(r.range(-5, 5));
    case 6: return std::numeric_limits<T>::max() * (r.flip() ? 1 : -1);
    case 7: return T(interestingInt<int64_t>(r));
    default: return T((r.unit() - 0.5) * std::pow(10.0, double(r.range(-30, 30))));
    }
}

inline std::string randString(Rng &r, size_t maxLen = 24)
{
    size_t n = r.chance(1, 8) ? r.below(600) : r.below(maxLen + 1);
    std::string s;
    const unsigned kind = r.below(3);
    for (size_t i = 0; i < n; i++)
    {
        if (kind == 0) s += char(r.below(256));
        else if (kind == 1) s += char('a' + r.below(26));
        else s += "\0\n/\"\\ {}[],:x\x7f\x80\xff"[r.below(16)];
    }
    return s;
}

inline Pothos::DType randDType(Rng &r)
{
    static const std::vector<std::string> n = {"int8","uint8","int16","uint16","int32","uint32","int64","uint64","float32","float64",
        "complex_int8","complex_uint8","complex_int16","complex_uint16","complex_int32","complex_uint32","complex_int64","complex_uint64","complex_float32","complex_float64"};
    const size_t dim = r.chance(1, 3) ? size_t(r.range(1, 300)) : 1;
    if (r.chance(1, 8)) return Pothos::DType("custom", size_t(r.range(1, 200)));
    if (r.chance(1, 12)) return Pothos::DType();
    return Pothos::DType(r.pick(n), dim);
}

inline Pothos::BufferChunk randBuffer(Rng &r, bool allowNull = true)
{
    if (allowNull && r.chance(1, 8)) return Pothos::BufferChunk();
    const auto dt = randDType(r);
    Pothos::BufferChunk b(dt, size_t(r.chance(1, 10) ? r.below(2000) : r.below(20)));
    for (size_t i = 0; i < b.length; i++) b.as<unsigned char *>()[i] = (unsigned char)r.next();
    if (b.length > dt.size() && r.chance(1, 3)) { b.address += dt.size(); b.length -= dt.size(); }
    return b;
}

inline Pothos::Object randObject(Rng &r, unsigned depth, bool hashable = false);

inline Pothos::Label randLabel(Rng &r, unsigned depth)
{
    Pothos::Label l(randString(r), randObject(r, depth), interestingInt<unsigned long long>(r));
    if (r.flip()) l.width = r.below(1000) + 1;
    return l;
}
inline Pothos::Packet randPacket(Rng &r, unsigned depth)
{
    Pothos::Packet p;
    p.payload = randBuffer(r);
    for (size_t i = r.below(4); i > 0; i--) p.metadata[randString(r)] = randObject(r, depth);
    for (size_t i = r.below(4); i > 0; i--) p.labels.push_back(randLabel(r, depth));
    return p;
}

template <typename T, typename F>
inline std::vector<T> randVec(Rng &r, F f)
{
    std::vector<T> v; for (size_t n = r.chance(1, 20) ? r.below(300) : r.below(6); n > 0; n--) v.push_back(f(r)); return v;
}
#define VF_INTS(X) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned int) X(long) X(unsigned long) X(long long) X(unsigned long long)

inline Pothos::Object randScalar(Rng &r)
{
    switch (r.below(18))
    {
    case 0: return Pothos::Object(r.flip());
    case 1: return Pothos::Object(interestingInt<char>(r));
    case 2: return Pothos::Object(interestingInt<signed char>(r));
    case 3: return Pothos::Object(interestingInt<unsigned char>(r));
    case 4: return Pothos::Object(interestingInt<short>(r));
    case 5: return Pothos::Object(interestingInt<unsigned short>(r));
    case 6: return Pothos::Object(interestingInt<int>(r));
    case 7: return Pothos::Object(interestingInt<unsigned int>(r));
    case 8: return Pothos::Object(interestingInt<long>(r));
    case 9: return Pothos::Object(interestingInt<unsigned long>(r));
    case 10: return Pothos::Object(interestingInt<long long>(r));
    case 11: return Pothos::Object(interestingInt<unsigned long long>(r));
    case 12: return Pothos::Object(interestingFloat<float>(r));
    case 13: return Pothos::Object(interestingFloat<double>(r));
    case 14: return Pothos::Object(std::complex<float>(interestingFloat<float>(r), interestingFloat<float>(r)));
    case 15: return Pothos::Object(std::complex<double>(interestingFloat<double>(r), interestingFloat<double>(r)));
    default: return Pothos::Object(randString(r));
    }
}

inline Pothos::Object randVector(Rng &r)
{
    switch (r.below(18))
    {
    case 0: return Pothos::Object(randVec<bool>(r, [](Rng &q){return q.flip();}));
#define X_(c, T) case c: return Pothos::Object(randVec<T>(r, interestingInt<T>));
    X_(1, char) X_(2, signed char) X_(3, unsigned char) X_(4, short) X_(5, unsigned short) X_(6, int) X_(7, unsigned int)
    X_(8, long) X_(9, unsigned long) X_(10, long long) X_(11, unsigned long long)
#undef X_
    case 12: return Pothos::Object(randVec<float>(r, interestingFloat<float>));
    case 13: return Pothos::Object(randVec<double>(r, interestingFloat<double>));
    case 14: return Pothos::Object(randVec<std::complex<float>>(r, [](Rng &q){return std::complex<float>(interestingFloat<float>(q), interestingFloat<float>(q));}));
    case 15: return Pothos::Object(randVec<std::complex<double>>(r, [](Rng &q){return std::complex<double>(interestingFloat<double>(q), interestingFloat<double>(q));}));
    default: return Pothos::Object(randVec<std::string>(r, [](Rng &q){return randString(q);}));
    }
}

//! key object usable in ObjectSet/ObjectMap (same-type keys per container to stay comparable)
inline Pothos::Object randKey(Rng &r, unsigned kind)
{
    if (kind == 0) return Pothos::Object(int(r.range(-1000, 1000)));
    if (kind == 1) return Pothos::Object(randString(r));
    return Pothos::Object((long long)(interestingInt<int32_t>(r)));
}

inline Pothos::Object randObject(Rng &r, unsigned depth, bool)
{
    const unsigned k = depth == 0 ? r.below(8) : r.below(18);
    switch (k)
    {
    case 0: case 1: case 2: case 3: case 4: return randScalar(r);
    case 5: return randVector(r);
    case 6: return Pothos::Object();
    case 7: return Pothos::Object(randDType(r));
    case 8: return Pothos::Object(randBuffer(r));
    case 9: return Pothos::Object(randLabel(r, depth - 1));
    case 10: return Pothos::Object(randPacket(r, depth - 1));
    case 11: { Pothos::ObjectVector v; for (size_t n = r.below(6); n > 0; n--) v.push_back(randObject(r, depth - 1)); return Pothos::Object(v); }
    case 12: { Pothos::ObjectSet v; const unsigned kk = r.below(3); for (size_t n = r.below(6); n > 0; n--) v.insert(randKey(r, kk)); return Pothos::Object(v); }
    case 13: { Pothos::ObjectMap v; const unsigned kk = r.below(3); for (size_t n = r.below(6); n > 0; n--) v[randKey(r, kk)] = randObject(r, depth - 1); return Pothos::Object(v); }
    case 14: { Pothos::ObjectKwargs v; for (size_t n = r.below(6); n > 0; n--) v[randString(r)] = randObject(r, depth - 1); return Pothos::Object(v); }
    case 15: { std::vector<Pothos::Label> v; for (size_t n = r.below(4); n > 0; n--) v.push_back(randLabel(r, depth - 1)); return Pothos::Object(v); }
    case 16: { Pothos::ThreadPoolArgs a(size_t(r.below(1000))); a.priority = interestingFloat<double>(r); a.affinityMode = randString(r); a.yieldMode = randString(r);
               for (size_t n = r.below(5); n > 0; n--) a.affinity.push_back(interestingInt<size_t>(r)); return Pothos::Object(a); }
    default: { std::vector<Pothos::PortInfo> v; for (size_t n = r.below(4); n > 0; n--) { Pothos::PortInfo p; p.name = randString(r); p.alias = randString(r); p.isSigSlot = r.flip(); p.dtype = randDType(r); v.push_back(p); }
               return r.flip() && !v.empty() ? Pothos::Object(v[0]) : Pothos::Object(v); }
    }
}

template <typename T> inline bool bitEq(const T &a, const T &b) { return a == b; }
template <> inline bool bitEq(const float &a, const float &b) { return memcmp(&a, &b, sizeof a) == 0; }
template <> inline bool bitEq(const double &a, const double &b) { return memcmp(&a, &b, sizeof a) == 0; }
template <> inline bool bitEq(const std::complex<float> &a, const std::complex<float> &b) { return memcmp(&a, &b, sizeof a) == 0; }
template <> inline bool bitEq(const std::complex<double> &a, const std::complex<double> &b) { return memcmp(&a, &b, sizeof a) == 0; }

inline bool deepEq(const Pothos::Object &a, const Pothos::Object &b);
inline bool deepEq(const Pothos::BufferChunk &a, const Pothos::BufferChunk &b)
{
    if (bool(a) != bool(b)) return false;
    if (!a) return true;
    if (a.length != b.length || a.dtype.elemType() != b.dtype.elemType() || a.dtype.elemSize() != b.dtype.elemSize() || a.dtype.dimension() != b.dtype.dimension()) return false;
    return a.length == 0 || memcmp(a.as<const void *>(), b.as<const void *>(), a.length) == 0;
}
inline bool deepEq(const Pothos::DType &a, const Pothos::DType &b)
{
    return a.elemType() == b.elemType() && a.elemSize() == b.elemSize() && a.dimension() == b.dimension();
}
inline bool deepEq(const Pothos::Label &a, const Pothos::Label &b)
{
    return a.id == b.id && a.index == b.index && a.width == b.width && deepEq(a.data, b.data);
}
inline bool deepEq(const Pothos::PortInfo &a, const Pothos::PortInfo &b)
{
    return a.name == b.name && a.alias == b.alias && a.isSigSlot == b.isSigSlot && deepEq(a.dtype, b.dtype);
}
inline bool deepEq(const Pothos::ObjectKwargs &a, const Pothos::ObjectKwargs &b)
{
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || !deepEq(i->second, j->second)) return false;
    return true;
}
template <typename T> inline bool vecEq(const std::vector<T> &a, const std::vector<T> &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!deepEq(a[i], b[i])) return false;
    return true;
}
inline bool deepEq(const Pothos::Object &a, const Pothos::Object &b)
{
    if (!a || !b) return bool(a) == bool(b);
    if (a.type() != b.type()) return false;
#define S_(T) if (a.type() == typeid(T)) return bitEq<T>(a.extract<T>(), b.extract<T>()); \
    if (a.type() == typeid(std::vector<T>)) { auto &x = a.extract<std::vector<T>>(); auto &y = b.extract<std::vector<T>>(); \
        if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) { T p = x[i], q = y[i]; if (!bitEq<T>(p, q)) return false; } return true; }
    S_(bool) VF_INTS(S_) S_(float) S_(double) S_(std::complex<float>) S_(std::complex<double>) S_(std::string)
#undef S_
#define D_(T) if (a.type() == typeid(T)) return deepEq(a.extract<T>(), b.extract<T>());
    D_(Pothos::Object) D_(Pothos::BufferChunk) D_(Pothos::DType) D_(Pothos::Label) D_(Pothos::PortInfo) D_(Pothos::ObjectKwargs)
#undef D_
#define L_(T) if (a.type() == typeid(std::vector<T>)) return vecEq(a.extract<std::vector<T>>(), b.extract<std::vector<T>>());
    L_(Pothos::Label) L_(Pothos::PortInfo) L_(Pothos::Object)
#undef L_
    if (a.type() == typeid(Pothos::Packet))
    {
        auto &x = a.extract<Pothos::Packet>(); auto &y = b.extract<Pothos::Packet>();
        return deepEq(x.payload, y.payload) && deepEq(x.metadata, y.metadata) && vecEq(x.labels, y.labels);
    }
    if (a.type() == typeid(Pothos::ThreadPoolArgs))
    {
        auto &x = a.extract<Pothos::ThreadPoolArgs>(); auto &y = b.extract<Pothos::ThreadPoolArgs>();
        return x.numThreads == y.numThreads && bitEq<double>(x.priority, y.priority) && x.affinityMode == y.affinityMode && x.affinity == y.affinity && x.yieldMode == y.yieldMode;
    }
    if (a.type() == typeid(Pothos::ObjectSet))
    {
        auto &x = a.extract<Pothos::ObjectSet>(); auto &y = b.extract<Pothos::ObjectSet>();
        if (x.size() != y.size()) return false;
        for (auto &i : x) { bool f = false; for (auto &j : y) if (deepEq(i, j)) f = true; if (!f) return false; }
        return true;
    }
    if (a.type() == typeid(Pothos::ObjectMap))
    {
        auto &x = a.extract<Pothos::ObjectMap>(); auto &y = b.extract<Pothos::ObjectMap>();
        if (x.size() != y.size()) return false;
        for (auto &i : x) { bool f = false; for (auto &j : y) if (deepEq(i.first, j.first) && deepEq(i.second, j.second)) f = true; if (!f) return false; }
        return true;
    }
    return a == b; //types without a value comparison here: same held instance
}

inline std::string hexOf(const std::string &s, size_t max = 200)
{
    std::string o; char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    return o;
}

} //namespace vf
