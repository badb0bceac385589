#pragma once
// Instrumented stream blocks. The content of every stream is a pure function of (salt, byte offset), so a consumer
// can verify every byte without sharing any synchronised state with its producer (a shared log would hide races).
#include "vfp.hpp"
#include <Pothos/Framework/BufferManager.hpp>
#include <deque>

namespace flow {
using namespace vf;
using namespace Pothos;

struct Content { uint64_t salt = 0; unsigned char x = 0; };
inline uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline void gen(const Content &c, uint64_t off, unsigned char *p, size_t n)
{
    while (n)
    {
        uint64_t w = mix(c.salt + (off / 8) * 0x9E3779B97F4A7C15ull);
        const unsigned b = unsigned(off % 8);
        const size_t k = std::min<size_t>(8 - b, n);
        for (size_t i = 0; i < k; i++) p[i] = (unsigned char)(w >> (8 * (b + i))) ^ c.x;
        p += k; off += k; n -= k;
    }
}
//! offset of the first wrong byte, or n
inline size_t check(const Content &c, uint64_t off, const unsigned char *p, size_t n)
{
    unsigned char b[256]; size_t done = 0;
    while (done < n)
    {
        const size_t k = std::min<size_t>(sizeof b, n - done);
        gen(c, off + done, b, k);
        if (memcmp(b, p + done, k)) { size_t i = 0; while (b[i] == p[done + i]) i++; return done + i; }
        done += k;
    }
    return n;
}

//! one stream leaving an output port
struct OutStream { Content c; size_t size = 1; std::atomic<uint64_t> elems{0}; };
typedef std::shared_ptr<OutStream> OutStreamP;

inline void verify(const std::string &who, const OutStream &s, uint64_t elemPos, const void *p, size_t elems, const char *key = "stream-element-differs")
{
    const size_t n = elems * s.size, bad = check(s.c, elemPos * s.size, (const unsigned char *)p, n);
    if (bad == n) return;
    std::ostringstream o; o << who << " element " << elemPos + bad / s.size << " of " << s.size << " bytes (chunk at " << elemPos << " of " << elems << ")";
    //say where the bytes do come from, if nearby
    unsigned char w[8]; if (n - bad >= 8) { memcpy(w, (const char *)p + bad, 8); for (int64_t d = -65536; d < 65536; d++) { const int64_t at = int64_t(elemPos * s.size + bad) + d; if (at < 0) continue; if (check(s.c, at, w, 8) == 8) { o << "; bytes belong " << d << " bytes away"; break; } } }
    violation(key, o.str());
}

inline ThreadPool randPool(Rng &r, std::string *desc = nullptr)
{
    ThreadPoolArgs a(r.below(4));
    a.yieldMode = r.pick(std::vector<std::string>{"", "CONDITION", "HYBRID", "SPIN"});
    if (a.yieldMode == "SPIN" && r.chance(2, 3)) a.yieldMode = ""; //busy loops make everything else slow
    if (desc) *desc += std::to_string(a.numThreads) + a.yieldMode.substr(0, 1) + ",";
    return ThreadPool(a);
}

inline BufferManager::Sptr randManager(Rng &r, size_t elemSize)
{
    if (r.flip()) return BufferManager::Sptr();
    BufferManagerArgs a; const bool circ = r.chance(1, 3);
    a.numBuffers = size_t(r.range(1, 5));
    a.bufferSize = circ ? 4096 * size_t(r.range(1, 2)) : elemSize * size_t(r.range(16, 400)) + (r.chance(1, 4) ? r.below(elemSize) : 0);
    count(circ ? "circular_managers" : "generic_managers");
    return BufferManager::make(circ ? "circular" : "generic", a);
}

struct Base : Block
{
    Rng rng; std::string id; std::atomic<int> inside{0};
    explicit Base(Rng q): rng(q) {}
    std::map<std::string, uint64_t> outMgrSeed, inMgrSeed; //ports for which this block supplies a manager
    BufferManager::Sptr getOutputBufferManager(const std::string &name, const std::string &domain)
    {
        if (!domain.empty() || !outMgrSeed.count(name)) return BufferManager::Sptr();
        Rng q(outMgrSeed[name]); return randManager(q, output(name)->dtype().size());
    }
    BufferManager::Sptr getInputBufferManager(const std::string &name, const std::string &domain)
    {
        if (!domain.empty() || !inMgrSeed.count(name)) return BufferManager::Sptr();
        Rng q(inMgrSeed[name]); return randManager(q, input(name)->dtype().size());
    }
};

//! push `n` elements of stream s out of `out` in a randomly chosen way. Returns elements sent now through postBuffer
//! (0 if produce() was used, which must then be the last send of this work call).
struct Sender
{
    BufferChunk big; size_t bigAt = 0;
    bool sentFront = false;
    void begin(void) { sentFront = false; }
    //! returns how many elements were sent
    size_t send(Rng &r, OutputPort *out, OutStream &s, size_t want, bool &producedFlag)
    {
        const uint64_t at = s.elems.load(std::memory_order_relaxed);
        size_t n = std::max<size_t>(1, want);
        const unsigned how = r.below(10);
        if (how < 4 && !sentFront)
        {
            n = std::min<size_t>(n, out->elements());
            if (n == 0) return 0;
            VF_CHECK(out->buffer().length >= n * s.size, "front-smaller-than-elements", out->buffer().length << " bytes for " << n << " elements of " << s.size);
            gen(s.c, at * s.size, out->buffer().as<unsigned char *>(), n * s.size);
            out->produce(n); producedFlag = true; sentFront = true; count("sent_produce");
        }
        else if (how < 7)
        {
            //served from the front buffer when it is large enough, from the pool otherwise
            const bool other = r.chance(1, 3);
            const DType dt = other ? DType("custom", s.size) : out->dtype();
            auto b = other ? out->getBuffer(dt, n) : out->getBuffer(n);
            VF_CHECK(b.elements() == n && b.length == n * s.size, "getbuffer-wrong-size", b.elements() << " elements, " << b.length << " bytes, asked " << n << "x" << s.size);
            VF_CHECK(b.dtype == dt, "getbuffer-wrong-type", b.dtype.toString() << " asked " << dt.toString());
            gen(s.c, at * s.size, b.as<unsigned char *>(), n * s.size);
            if (r.flip()) out->postBuffer(std::move(b)); else { out->postBuffer(b); }
            sentFront = true; count("sent_getbuffer");
        }
        else if (how < 8)
        {
            BufferChunk b(out->dtype(), n); //freshly allocated
            gen(s.c, at * s.size, b.as<unsigned char *>(), n * s.size);
            if (r.chance(1, 3)) b.dtype = DType(); //unspecified: the port's type applies
            out->postBuffer(std::move(b)); count("sent_allocated");
        }
        else
        {
            //sub ranges of one larger allocation, adjacent in memory most of the time
            if (!big || bigAt + n * s.size > big.getBuffer().getLength()) { big = BufferChunk(std::max<size_t>(n * s.size, 3000)); bigAt = 0; }
            BufferChunk b(big); b.address += bigAt; b.length = n * s.size; b.dtype = out->dtype();
            gen(s.c, at * s.size, b.as<unsigned char *>(), n * s.size);
            bigAt += n * s.size + (r.chance(1, 4) ? 16 : 0);
            out->postBuffer(b); count("sent_subrange");
        }
        s.elems.fetch_add(n, std::memory_order_relaxed);
        return n;
    }
};
//! stands in for the copier block of the blocks module, which the framework inserts between incompatible buffer managers
struct Copier : Block
{
    Copier(void) { setupInput(0); setupOutput(0); }
    static Block *make(void) { count("copiers_inserted"); return new Copier(); }
    void work(void)
    {
        auto p = input(0); auto o = output(0); size_t n = std::min(p->elements(), o->elements()); if (!n) return;
        //whole elements: with a single buffer, half an element in it and the other half here would wait for each other
        const size_t es = std::max<size_t>(1, p->buffer().dtype.size()); if (n > es) n -= n % es;
        memcpy(o->buffer().as<void *>(), p->buffer().as<const void *>(), n); p->consume(n); o->produce(n);
    }
    void propagateLabels(const InputPort *in) { for (auto &l : in->labels()) output(0)->postLabel(l); }
};

inline void registerFakeCopier(void) { static BlockRegistry reg("/blocks/copier", &Copier::make); }
} //namespace flow
