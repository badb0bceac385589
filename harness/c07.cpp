// C07: the accumulator is one byte queue; inputs with a reserve are offered contiguous fronts.
#include "vfp.hpp"
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <deque>
using namespace vf;
using namespace Pothos;

//! byte source: every produced byte is a function of a global position, so misplaced bytes are visible
struct Feed
{
    uint64_t pos = 0; uint64_t salt = 1;
    unsigned char at(uint64_t p) const { uint64_t z = (p + salt) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return (unsigned char)(z >> 40); }
};

//! a held reference must keep showing the bytes it showed when it was taken
struct Held { BufferChunk chunk; std::vector<unsigned char> bytes; };

struct Source
{
    virtual ~Source(void) {}
    virtual bool next(Rng &r, size_t want, BufferChunk &out) = 0; //writable chunk, or false when starved
    virtual const char *kind(void) const = 0;
};
struct FreshSource : Source
{
    bool next(Rng &, size_t want, BufferChunk &out) { out = BufferChunk(want); return true; }
    const char *kind(void) const { return "fresh"; }
};
struct SubRangeSource : Source //sub ranges of larger buffers, with bytes before and after that are not part of the stream
{
    bool next(Rng &r, size_t want, BufferChunk &out)
    {
        const size_t before = r.below(300), after = r.below(300);
        out = BufferChunk(want + before + after);
        memset(out.as<void *>(), 0xEE, out.length);
        out.address += before; out.length = want; return true;
    }
    const char *kind(void) const { return "subrange"; }
};
struct SlabSource : Source //neighbours in one slab, each its own managed buffer or one common managed buffer
{
    SharedBuffer slab; size_t off = 0; bool common; BufferChunk whole;
    SlabSource(bool c) : common(c) {}
    bool next(Rng &r, size_t want, BufferChunk &out)
    {
        if (!slab || off + want > slab.getLength()) { slab = SharedBuffer::make(std::max<size_t>(want, 3000 + r.below(2000))); off = 0; whole = BufferChunk(slab); }
        if (common) { out = whole; out.address += off; out.length = want; }
        else out = BufferChunk(SharedBuffer(slab.getAddress() + off, want, slab));
        off += want;
        if (r.chance(1, 6)) off += r.below(50);
        return true;
    }
    const char *kind(void) const { return common ? "slab-common" : "slab-split"; }
};
struct MgrSource : Source
{
    BufferManager::Sptr m; std::string name;
    MgrSource(Rng &r, const std::string &n) : name(n)
    {
        BufferManagerArgs a; a.numBuffers = size_t(r.range(1, 8)); a.bufferSize = n == "circular" ? size_t(r.range(1, 3)) * 4096 : size_t(r.range(1, 2000));
        m = BufferManager::make(n, a);
    }
    bool next(Rng &r, size_t want, BufferChunk &out)
    {
        if (m->empty()) return false;
        out = m->front();
        if (out.length == 0) return false;
        if (r.chance(1, 3)) want = out.length;
        out.length = std::min(want, out.length);
        m->pop(out.length);
        return true;
    }
    const char *kind(void) const { return name.c_str(); }
};

static void checkAll(const BufferAccumulator &acc, const std::deque<unsigned char> &model, const std::string &after)
{
    VF_CHECK(acc.getTotalBytesAvailable() == model.size(), "total-mismatch", after << ": reported " << acc.getTotalBytesAvailable() << " expected " << model.size());
    VF_CHECK(acc.empty() == model.empty(), "empty-mismatch", after);
    const auto &f = acc.front();
    VF_CHECK(f.length <= model.size(), "front-longer-than-total", after << ": front " << f.length << " total " << model.size());
    VF_CHECK(model.empty() || f.length != 0, "front-empty-with-bytes-queued", after << ": total " << model.size());
    const auto p = f.as<const unsigned char *>();
    for (size_t i = 0; i < f.length && i < model.size(); i++) if (p[i] != model[i])
    {
        violation("front-bytes-differ", after + ": at offset " + std::to_string(i) + " of front length " + std::to_string(f.length) + " total " + std::to_string(model.size()));
        break;
    }
}

static void accCase(Rng &r, uint64_t)
{
    BufferAccumulator acc, upstream; //upstream: whose fronts are forwarded as amalgamations
    std::deque<unsigned char> model, upModel;
    std::vector<Held> held;
    Feed feed; feed.salt = r.next();
    std::vector<std::unique_ptr<Source>> sources;
    const unsigned nsrc = 1 + r.below(3);
    for (unsigned i = 0; i < nsrc; i++) switch (r.below(6))
    {
    case 0: sources.emplace_back(new FreshSource()); break;
    case 1: sources.emplace_back(new SubRangeSource()); break;
    case 2: sources.emplace_back(new SlabSource(r.flip())); break;
    case 3: case 4: sources.emplace_back(new MgrSource(r, "generic")); break;
    default: sources.emplace_back(new MgrSource(r, "circular")); break;
    }
    const size_t sizeScale = r.pick(std::vector<size_t>{4, 40, 400, 3000});
    std::string sig, trace;
    unsigned ops = 60 + r.below(200);
    size_t cur = r.below(sources.size());
    for (unsigned op = 0; op < ops; op++)
    {
        std::ostringstream what;
        const unsigned k = r.below(100);
        if (r.chance(1, 12)) cur = r.below(sources.size());
        if (k < 42) //push
        {
            BufferChunk c;
            if (!sources[cur]->next(r, 1 + r.below(sizeScale), c)) { count("starved"); continue; }
            for (size_t i = 0; i < c.length; i++) { const unsigned char b = feed.at(feed.pos++); c.as<unsigned char *>()[i] = b; }
            std::vector<unsigned char> bytes(c.as<unsigned char *>(), c.as<unsigned char *>() + c.length);
            if (r.chance(1, 5)) { upModel.insert(upModel.end(), bytes.begin(), bytes.end()); what << "upush " << sources[cur]->kind() << " " << c.length; upstream.push(std::move(c)); }
            else { model.insert(model.end(), bytes.begin(), bytes.end()); what << "push " << sources[cur]->kind() << " " << c.length; acc.push(std::move(c)); }
            count("pushes"); sig += 'p';
        }
        else if (k < 47 && !upstream.empty()) //forward the upstream front (possibly an amalgamation), whole or in part
        {
            BufferChunk c = upstream.front();
            if (r.chance(1, 3)) c.length = 1 + r.below(c.length);
            const size_t n = c.length;
            what << "forward " << n;
            model.insert(model.end(), upModel.begin(), upModel.begin() + n);
            upModel.erase(upModel.begin(), upModel.begin() + n);
            acc.push(std::move(c));
            upstream.pop(n);
            count("forwards"); sig += 'f';
        }
        else if (k < 72) //pop part of the front
        {
            const size_t n = r.chance(1, 3) ? acc.front().length : r.below(acc.front().length + 1);
            if (n > model.size()) { checkAll(acc, model, "before pop"); return; }
            what << "pop " << n << " of " << acc.front().length;
            acc.pop(n);
            model.erase(model.begin(), model.begin() + n);
            count("pops"); sig += 'o';
        }
        else if (k < 90) //require
        {
            size_t n;
            switch (r.below(5))
            {
            case 0: n = r.below(20); break;
            case 1: n = model.size() + r.below(40); break;
            case 2: n = acc.front().length + 1 + r.below(30); break;
            case 3: n = 8190 + r.below(5000); break;
            default: n = r.below(model.size() + 1); break;
            }
            what << "require " << n << " of " << model.size();
            const bool had = acc.front().length >= n;
            acc.require(n);
            VF_CHECK(acc.front().length >= std::min<size_t>(n, model.size()), "require-not-met", what.str() << " front " << acc.front().length);
            count(had ? "requires_trivial" : "requires_real"); sig += 'r';
        }
        else if (k < 93 && acc.front().length) //hold
        {
            Held h; h.chunk = acc.front();
            if (r.flip()) { const size_t skip = r.below(h.chunk.length); h.chunk.address += skip; h.chunk.length -= skip; }
            h.bytes.assign(h.chunk.as<unsigned char *>(), h.chunk.as<unsigned char *>() + h.chunk.length);
            held.push_back(std::move(h)); count("holds"); what << "hold"; sig += 'h';
        }
        else if (k < 96 && !held.empty()) { held.erase(held.begin() + r.below(held.size())); what << "release"; sig += 'x'; }
        else if (k == 96 && r.chance(1, 4)) { acc.clear(); model.clear(); what << "clear"; sig += 'c'; }
        else if (k == 97 && r.chance(1, 4)) { BufferAccumulator copy(acc); acc = copy; what << "copy"; sig += 'y'; }
        else if (k == 98) { VF_CHECK(acc.getUniqueManagedBufferCount() > 0 || model.empty(), "no-managed-buffer-with-bytes", ""); what << "count"; }
        else continue;
        trace += what.str() + "; ";
        if (trace.size() > 1500) trace.erase(0, 500);
        checkAll(acc, model, trace);
        for (auto &h : held) if (memcmp(h.chunk.as<void *>(), h.bytes.data(), h.bytes.size()) != 0) { violation("held-front-overwritten", trace); held.clear(); break; }
    }
    distinct(hash64(sig) ^ sizeScale);
    sample(trace.substr(0, 300));
}

// ------------------------------------------------------------------- a block with a reserve
struct ReserveSink : Block
{
    uint64_t pos = 0; Feed feed; size_t reserve; Rng rng; size_t works = 0; bool bad = false; std::atomic<uint64_t> consumed{0}; std::atomic<bool> open{false}; size_t maxFront = 0;
    ReserveSink(size_t res, uint64_t salt, Rng q, const DType &dt) : reserve(res), rng(q) { feed.salt = salt; this->setupInput(0, dt); this->input(0)->setReserve(res); }
    void work(void)
    {
        auto in = this->input(0);
        works++;
        const size_t es = in->dtype().size();
        if (in->hasMessage()) { in->popMessage(); count("message_wakeups"); }
        else VF_CHECK(in->elements() >= reserve, "reserve-not-met", "offered " << in->elements() << " reserve " << reserve);
        VF_CHECK(in->elements() <= in->buffer().length / es, "elements-beyond-buffer", "");
        const auto p = in->buffer().as<const unsigned char *>();
        const size_t n = in->elements() * es;
        for (size_t i = 0; i < n; i++) if (p[i] != feed.at(pos + i)) { if (!bad) violation("input-bytes-differ", "at byte " + std::to_string(pos + i)); bad = true; break; }
        maxFront = std::max(maxFront, n);
        const size_t take = rng.chance(1, 4) ? in->elements() : rng.below(in->elements() + 1);
        in->consume(take);
        pos += take * es; consumed = pos;
        progress();
        if (rng.chance(1, 10)) { reserve = rng.below(400); in->setReserve(reserve); }
        if (take == 0) { in->consume(in->elements() ? 1 : 0); if (in->elements()) { pos += es; consumed = pos; } }
        this->yield();
    }
};

static void blockCase(Rng &r, uint64_t)
{
    const auto dt = DType(r.pick(std::vector<std::string>{"int8", "int16", "float32", "complex_float64"}), size_t(r.range(1, 3)));
    const size_t es = dt.size();
    const uint64_t salt = r.next();
    Feed feed; feed.salt = salt;
    auto sink = std::make_shared<ReserveSink>(r.below(500), salt, r.fork(), dt);
    {
        Topology t;
        struct Dummy : Block { Dummy(const DType &d) { this->setupOutput(0, d); } void work(void) {} };
        auto src = std::make_shared<Dummy>(dt);
        t.connect(src, 0, sink, 0);
        t.commit();
        size_t total = 0;
        for (unsigned i = 0, n = 40 + r.below(100); i < n; i++)
        {
            BufferChunk c;
            const size_t len = 1 + r.below(r.chance(1, 8) ? 4000 : 80); //bytes: may split elements
            if (r.flip()) { c = BufferChunk(len + 100); c.address += r.below(100); c.length = len; }
            else c = BufferChunk(len);
            for (size_t k = 0; k < len; k++) c.as<unsigned char *>()[k] = feed.at(feed.pos++);
            total += len;
            c.dtype = DType();
            sink->input(0)->pushBuffer(c);
            if (r.chance(1, 10)) sink->input(0)->pushMessage(Object(int(i)));
            if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        }
        t.waitInactive(0.02, 0.0);
        //everything that could be offered was offered: what remains is less than the reserve (or a partial element)
        t.disconnectAll(); t.commit();
        const size_t left = total - sink->consumed;
        VF_CHECK(sink->consumed <= total, "consumed-more-than-pushed", "");
        VF_CHECK(left / es < std::max<size_t>(1, sink->reserve) || left < es, "input-stranded", "left " << left << " bytes, reserve " << sink->reserve << " elements of " << es);
        count("block_bytes", sink->consumed); count("block_works", sink->works);
        distinct(hash64(std::to_string(sink->works) + "," + std::to_string(sink->maxFront) + "," + std::to_string(total)));
    }
}

//! an output reserve that a whole buffer can meet is met by every front that is offered
struct ReserveSource : Block
{
    Rng rng; size_t reserve = 0, es, most; uint64_t sent = 0, limit; std::atomic<bool> done{false}; std::string sig;
    ReserveSource(Rng q, const DType &dt, uint64_t lim) : rng(q), es(dt.size()), most(8192 / dt.size()), limit(lim) { this->setupOutput(0, dt); reserve = pickReserve(); this->output(0)->setReserve(reserve); }
    size_t pickReserve(void) { return rng.chance(1, 6) ? 0 : rng.chance(1, 4) ? 1 + rng.below(most) : 1 + rng.below(std::min<size_t>(most, 60)); }
    void work(void)
    {
        auto o = this->output(0); const size_t n = o->elements(); progress();
        VF_CHECK(n >= reserve, "output-reserve-not-met", "offered " << n << " of " << most << " reserve " << reserve << " element size " << es << " after " << sig); count("output_fronts");
        if (sig.size() > 60) sig.erase(0, 20);
        if (sent >= limit) { done = true; return; }
        const size_t use = 1 + (rng.chance(1, 3) ? n - 1 - rng.below(std::min<size_t>(n, 50)) : rng.below(n));
        if (rng.chance(1, 5)) { o->popElements(use); sig += "p" + std::to_string(use) + " "; count("output_pops"); }
        else { memset(o->buffer().as<void *>(), int(use), use * es); o->produce(use); sent += use; sig += "w" + std::to_string(use) + " "; }
        if (rng.chance(1, 8)) { const size_t was = reserve; reserve = pickReserve(); o->setReserve(reserve); sig += "r" + std::to_string(reserve) + " "; if (reserve > was) count("output_reserves_raised"); }
        this->yield();
    }
};
static void outresCase(Rng &r, uint64_t)
{
    const auto dt = DType("custom", r.pick(std::vector<size_t>{1, 3, 4, 7, 8, 12, 30, 100, 513}));
    struct Eat : Block { std::atomic<uint64_t> got{0}; Eat(const DType &d) { this->setupInput(0, d); } void work(void) { auto p = this->input(0); got += p->elements(); p->consume(p->elements()); progress(); } };
    auto src = std::make_shared<ReserveSource>(r.fork(), dt, r.range(5, 40) * (8192 / dt.size())); auto eat = std::make_shared<Eat>(dt);
    { Topology t; t.connect(src, 0, eat, 0); t.commit(); VF_CHECK(waitUntil([&] { return src->done && eat->got >= src->sent; }, 4000), "output-starved", "sent " << src->sent << " of " << src->limit << " received " << eat->got << " reserve " << src->reserve << " size " << dt.size() << " after " << src->sig); }
    distinct(hash64(src->sig + std::to_string(src->sent)));
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"acc", accCase}, {"block", blockCase}, {"outres", outresCase}});
}
