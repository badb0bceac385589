#pragma once
// Common runtime of all harnesses: deterministic case generation, violation reporting, evidence counters.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <cxxabi.h>
#include <Pothos/Exception.hpp>

extern "C" {
void vf_shim_config(unsigned lockProb, unsigned edgePeriod, unsigned maxUs, uint64_t seed);
uint64_t vf_shim_perturbations(void);
unsigned vf_shim_edges(void);
}

namespace vf {

//! a fresh directory inside this run's scratch area
inline std::string scratchDir(void)
{
    const char *t = getenv("TMPDIR"); std::string d = std::string(t && *t ? t : "/tmp") + "/vf.XXXXXX";
    if (!mkdtemp(&d[0])) { fprintf(stderr, "no scratch directory\n"); _exit(3); }
    return d;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next(void)
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); } //inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool flip(void) { return next() & 1; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v.at(below(v.size())); }
    double unit(void) { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    Rng fork(void) { return Rng(next()); }
};

inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash64(const std::string &s) { return hash64(s.data(), s.size()); }

inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct State
{
    uint64_t seed = 1; std::string mode; uint64_t first = 0, count = 1; bool thorough = false;
    std::atomic<uint64_t> curCase{0};
    std::mutex m;
    std::map<std::string, uint64_t> stats;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::set<std::string> seenKeys;
    unsigned nViol = 0, maxBad = 3;
    std::atomic<uint64_t> progress{0};
};
inline State &st(void) { static State *s = new State(); return *s; }

inline void emit(const std::string &line)
{
    static std::mutex m; std::lock_guard<std::mutex> l(m);
    fputs((line + "\n").c_str(), stdout); fflush(stdout);
}

//! Report a broken property. key names the oracle that failed (stable), detail is free text.
inline void violation(const std::string &key, const std::string &detail)
{
    auto &s = st();
    {
        std::lock_guard<std::mutex> l(s.m);
        s.nViol++;
        if (!s.seenKeys.insert(key + std::to_string(s.curCase)).second) return;
        if (s.seenKeys.size() > 200) return;
    }
    emit("@@V {\"key\":" + jstr(key) + ",\"case\":" + std::to_string(s.curCase.load()) + ",\"detail\":" + jstr(detail.substr(0, 3000)) + "}");
}
inline void count(const std::string &name, uint64_t n = 1)
{
    auto &s = st(); std::lock_guard<std::mutex> l(s.m); s.stats[name] += n;
}
inline void distinct(uint64_t h)
{
    auto &s = st(); std::lock_guard<std::mutex> l(s.m); if (s.distinct.size() < 200000) s.distinct.insert(h);
}
inline void distinct(const std::string &x) { distinct(hash64(x)); }
inline void sample(const std::string &x)
{
    auto &s = st(); std::lock_guard<std::mutex> l(s.m); if (s.samples.size() < 3) s.samples.push_back(x.substr(0, 600));
}
inline void progress(void) { st().progress.fetch_add(1, std::memory_order_relaxed); }

#define VF_CHECK(cond, key, detail) do { if (!(cond)) { std::ostringstream vf_o; vf_o << detail; vf::violation(key, vf_o.str()); } } while (0)

//! Poll until cond holds. Returns false only when the system stopped making progress:
//! `quietMs` polls of >=1ms each in which neither cond nor vf::progress() changed (the poll count, not the
//! clock, is what is measured, so a machine that does not schedule us does not produce a verdict).
template <typename Cond>
inline bool waitUntil(Cond cond, unsigned quietPolls = 12000)
{
    uint64_t last = st().progress.load();
    unsigned quiet = 0;
    while (true)
    {
        if (cond()) return true;
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        const auto now = st().progress.load();
        if (now != last) { last = now; quiet = 0; }
        else if (++quiet > quietPolls) return cond();
    }
}

template <typename Fcn>
inline std::string caught(Fcn f); //defined in vfp.hpp for Pothos exceptions

typedef std::function<void(Rng &, uint64_t)> CaseFcn;

inline int run(int argc, char **argv, const std::map<std::string, CaseFcn> &modes)
{
    auto &s = st();
    unsigned lockProb = 0, edgePeriod = 0, maxUs = 0;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") s.seed = std::stoull(v);
        else if (a == "--mode") s.mode = v;
        else if (a == "--first") s.first = std::stoull(v);
        else if (a == "--count") s.count = std::stoull(v);
        else if (a == "--tier") s.thorough = v == "thorough";
        else if (a == "--maxbad") s.maxBad = unsigned(std::stoul(v));
        else if (a == "--lockprob") lockProb = std::stoul(v);
        else if (a == "--edgeperiod") edgePeriod = std::stoul(v);
        else if (a == "--maxus") maxUs = std::stoul(v);
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    auto it = modes.find(s.mode);
    if (it == modes.end()) { fprintf(stderr, "no mode %s\n", s.mode.c_str()); return 3; }
    uint64_t n = 0; unsigned badCases = 0;
    for (uint64_t c = s.first; c < s.first + s.count; c++)
    {
        s.curCase = c;
        emit("@@C " + std::to_string(c));
        Rng rng(s.seed * 1000003ull + hash64(s.mode) + c * 7919ull);
        if (lockProb || edgePeriod) vf_shim_config(lockProb, edgePeriod ? edgePeriod << (c % 4) : 0, maxUs, rng.next());
        try { it->second(rng, c); }
        catch (const Pothos::Exception &e) { vf_shim_config(0,0,0,1); violation("uncaught-exception", e.displayText()); }
        catch (const std::exception &e) { vf_shim_config(0,0,0,1); violation("uncaught-exception", std::string(abi::__cxa_current_exception_type()->name()) + ": " + e.what()); }
        catch (...) { vf_shim_config(0,0,0,1); violation("uncaught-exception", "unknown type"); }
        vf_shim_config(0, 0, 0, 1);
        n++;
        { std::lock_guard<std::mutex> l(s.m); if (s.nViol) { badCases++; s.nViol = 0; } }
        if (badCases >= s.maxBad) break; //the verdict is settled: do not spend the time budget on more of the same
    }
    std::ostringstream o;
    o << "@@S {\"cases\":" << n << ",\"edges\":" << vf_shim_edges() << ",\"perturbations\":" << vf_shim_perturbations() << ",\"counts\":{";
    bool f = true;
    for (auto &p : s.stats) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
    o << "},\"samples\":["; f = true;
    for (auto &x : s.samples) { o << (f ? "" : ",") << jstr(x); f = false; }
    o << "],\"distinct\":["; f = true;
    for (auto &x : s.distinct) { o << (f ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; f = false; }
    o << "]}";
    emit(o.str());
    emit("@@E");
    return 0;
}

} //namespace vf
