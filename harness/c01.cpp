// C01: every stream element reaches every connected input once, in order, unmodified
#include "flow.hpp"
using namespace flow;

static bool g_small = false; //small custom buffer managers in this case (then no input reserves, which could never be met)
struct InState { OutStreamP s; std::atomic<uint64_t> pos{0}; size_t reserve = 0; };
typedef std::shared_ptr<InState> InStateP;

struct Source : Base
{
    std::vector<OutStreamP> outs; std::vector<std::unique_ptr<Sender>> senders; uint64_t limit; size_t maxChunk; bool bursts;
    Source(Rng q, size_t nout, const std::vector<size_t> &sizes, uint64_t lim, size_t mc) : Base(q), limit(lim), maxChunk(mc), bursts(rng.flip())
    {
        for (size_t i = 0; i < nout; i++)
        {
            setupOutput(i, DType("custom", sizes[i]));
            auto s = std::make_shared<OutStream>(); s->c.salt = rng.next(); s->size = sizes[i]; outs.push_back(s);
            senders.emplace_back(new Sender());
            if (g_small && rng.chance(1, 2)) outMgrSeed[std::to_string(i)] = rng.next();
            if (rng.chance(1, 5)) output(i)->setReserve(1 + rng.below(3));
        }
    }
    bool done(void) const { for (auto &o : outs) if (o->elems < limit) return false; return true; }
    void work(void)
    {
        bool more = false;
        for (size_t i = 0; i < outs.size(); i++)
        {
            bool produced = false; senders[i]->begin();
            for (size_t k = bursts ? 1 + rng.below(4) : 1; k > 0 && !produced; k--)
            {
                const uint64_t left = limit - outs[i]->elems; if (left == 0) break;
                senders[i]->send(rng, output(i), *outs[i], std::min<uint64_t>(left, 1 + rng.below(maxChunk)), produced);
            }
            if (outs[i]->elems < limit) more = true;
        }
        progress();
        if (more) yield();
    }
};

//! consumes and verifies; keeps some references and verifies them again later
struct Sink : Base
{
    InStateP in; struct Hold { BufferChunk c; uint64_t at; size_t n; }; std::deque<Hold> held; std::mutex hm; bool greedy;
    Sink(Rng q, OutStreamP s, size_t reserve) : Base(q), in(new InState()), greedy(rng.flip())
    {
        in->s = s; in->reserve = reserve;
        setupInput(0, DType("custom", s->size)); if (reserve) input(0)->setReserve(reserve);
        if (g_small && rng.chance(1, 4)) inMgrSeed["0"] = rng.next();
    }
    //! also called from outside: a sink must not sit on the last buffer of its source
    void release(size_t keep)
    {
        std::deque<Hold> out;
        { std::lock_guard<std::mutex> l(hm); while (held.size() > keep) { out.push_back(std::move(held.front())); held.pop_front(); } }
        for (auto &h : out) verify(id, *in->s, h.at, h.c.as<const void *>(), h.n, "held-stream-buffer-changed");
    }
    void work(void)
    {
        auto p = input(0); const size_t n = p->elements(); if (n == 0) return;
        VF_CHECK(p->buffer().length >= n * in->s->size && (n + 1) * in->s->size > p->buffer().length, "input-elements-length", n << " elements, " << p->buffer().length << " bytes");
        if (n < in->reserve) violation("reserve-not-honoured", std::to_string(n) + " < " + std::to_string(in->reserve));
        size_t use = greedy ? n : 1 + rng.below(n);
        verify(id, *in->s, in->pos, p->buffer().as<const void *>(), n); //everything offered, not only what is consumed
        if (rng.chance(1, 4)) { Hold h; h.c = rng.flip() ? p->buffer() : p->takeBuffer(); h.at = in->pos; h.n = use; std::lock_guard<std::mutex> l(hm); held.push_back(h); }
        release(rng.below(3));
        p->consume(use); in->pos.fetch_add(use, std::memory_order_relaxed); progress(); count("elements_verified", use);
    }
};

//! one input, one output, several implementation styles
struct Xform : Base
{
    InStateP in; OutStreamP out; int style; Sender sender;
    // 0 copy through front buffer, 1 in place (read before write), 2 forward input buffers, 3 repack to another element size, 4 regenerate (rate change)
    Xform(Rng q, OutStreamP s, int st, size_t reserve) : Base(q), in(new InState()), out(new OutStream()), style(st)
    {
        in->s = s; in->reserve = reserve;
        setupInput(0, DType("custom", s->size)); if (reserve) input(0)->setReserve(reserve);
        size_t osize = s->size;
        out->c = s->c;
        if (style <= 1) out->c.x ^= (unsigned char)(1 + rng.below(255));
        if (style == 3) { osize = s->size % 2 == 0 && rng.flip() ? s->size / 2 : s->size; if (osize == s->size && s->size <= 8 && rng.flip()) osize = 1; if (s->size % osize) osize = s->size; }
        if (style == 4) { out->c = Content{rng.next(), 0}; osize = 1 + rng.below(16); }
        out->size = osize;
        setupOutput(0, DType("custom", osize));
        if (style == 1) output(0)->setReadBeforeWrite(input(0));
        if (g_small && rng.chance(1, 4)) inMgrSeed["0"] = rng.next();
        if (g_small && rng.chance(1, 3)) outMgrSeed["0"] = rng.next();
    }
    void work(void)
    {
        auto p = input(0); auto o = output(0); size_t n = p->elements(); if (n == 0) return;
        if (n < in->reserve) violation("reserve-not-honoured", std::to_string(n) + " < " + std::to_string(in->reserve));
        verify(id, *in->s, in->pos, p->buffer().as<const void *>(), n);
        size_t use;
        if (style <= 1)
        {
            use = std::min(n, o->elements()); if (use == 0) return; if (rng.flip()) use = 1 + rng.below(use);
            auto a = p->buffer().as<const unsigned char *>(); auto b = o->buffer().as<unsigned char *>();
            const unsigned char k = in->s->c.x ^ out->c.x;
            if (a == b) count("in_place_works");
            for (size_t i = 0; i < use * out->size; i++) b[i] = a[i] ^ k;
            o->produce(use); out->elems.fetch_add(use, std::memory_order_relaxed);
        }
        else if (style <= 3)
        {
            use = rng.flip() ? n : 1 + rng.below(n);
            BufferChunk b = rng.flip() ? p->buffer() : p->takeBuffer();
            b.length = use * in->s->size; b.dtype = o->dtype();
            if (rng.chance(1, 4) && use > 1)
            { //in two pieces
                BufferChunk c(b); const size_t f = 1 + rng.below(use - 1); b.length = f * in->s->size; c.address += b.length; c.length = (use - f) * in->s->size;
                o->postBuffer(b); o->postBuffer(std::move(c));
            }
            else o->postBuffer(std::move(b));
            out->elems.fetch_add(use * in->s->size / out->size, std::memory_order_relaxed); count("forwarded_buffers");
        }
        else
        {
            use = rng.flip() ? n : 1 + rng.below(n);
            bool produced = false; sender.begin(); sender.send(rng, o, *out, 1 + rng.below(use * 2), produced);
        }
        p->consume(use); in->pos.fetch_add(use, std::memory_order_relaxed); progress();
    }
};

//! several inputs consumed independently, several outputs
struct Multi : Base
{
    std::vector<InStateP> ins; std::vector<OutStreamP> outs; std::vector<std::unique_ptr<Sender>> senders;
    Multi(Rng q, const std::vector<OutStreamP> &ss, size_t nout) : Base(q)
    {
        for (size_t i = 0; i < ss.size(); i++) { setupInput(i, DType("custom", ss[i]->size)); auto st = std::make_shared<InState>(); st->s = ss[i]; ins.push_back(st); }
        for (size_t i = 0; i < nout; i++) { auto o = std::make_shared<OutStream>(); o->c.salt = rng.next(); o->size = 1 + rng.below(12); outs.push_back(o); senders.emplace_back(new Sender()); setupOutput(i, DType("custom", o->size)); }
    }
    void work(void)
    {
        size_t tot = 0;
        for (size_t i = 0; i < ins.size(); i++)
        {
            size_t n = input(i)->elements(); if (n == 0) continue;
            verify(id, *ins[i]->s, ins[i]->pos, input(i)->buffer().as<const void *>(), n);
            if (rng.flip()) n = 1 + rng.below(n);
            if (rng.chance(1, 5) && tot) { yield(); continue; } //leave this one for later
            input(i)->consume(n); ins[i]->pos.fetch_add(n, std::memory_order_relaxed); tot += n;
        }
        if (tot) for (size_t i = 0; i < outs.size(); i++) if (rng.chance(2, 3)) { bool p = false; senders[i]->begin(); senders[i]->send(rng, output(i), *outs[i], 1 + rng.below(tot), p); }
        progress();
    }
};

static void graphCase(Rng &r, uint64_t)
{
    g_small = r.flip();
    std::string sig;
    const uint64_t limit = 500 + r.below(4000);
    struct Node { std::shared_ptr<Base> b; };
    std::vector<std::shared_ptr<Base>> blocks;
    struct Edge { std::shared_ptr<Base> src; size_t sp; std::shared_ptr<Base> dst; size_t dp; InStateP st; };
    std::vector<Edge> edges; std::vector<std::shared_ptr<Source>> sources; std::vector<std::shared_ptr<Sink>> sinks; 
    struct Avail { std::shared_ptr<Base> b; size_t port; OutStreamP s; }; std::vector<Avail> avail;
    for (size_t i = 0, n = 1 + r.below(2); i < n; i++)
    {
        const size_t no = 1 + r.below(2); std::vector<size_t> sizes; for (size_t k = 0; k < no; k++) sizes.push_back(r.pick(std::vector<size_t>{1, 2, 3, 4, 8, 8, 12, 16, 30}));
        auto s = std::make_shared<Source>(r.fork(), no, sizes, limit, r.pick(std::vector<size_t>{1, 7, 60, 400, 3000}));
        s->id = "source" + std::to_string(i); sources.push_back(s); blocks.push_back(s);
        for (size_t k = 0; k < no; k++) avail.push_back(Avail{s, k, s->outs[k]});
        sig += "S" + std::to_string(no);
    }
    for (size_t i = 0, n = r.below(4); i < n; i++)
    {
        if (r.chance(1, 4) && avail.size() > 1)
        {
            std::vector<Avail> in; for (size_t k = 0, m = 2 + r.below(2); k < m; k++) in.push_back(r.pick(avail));
            std::vector<OutStreamP> ss; for (auto &a : in) ss.push_back(a.s);
            auto z = std::make_shared<Multi>(r.fork(), ss, r.below(3)); z->id = "multi" + std::to_string(i); blocks.push_back(z);
            for (size_t k = 0; k < in.size(); k++) edges.push_back(Edge{in[k].b, in[k].port, z, k, z->ins[k]});
            for (size_t k = 0; k < z->outs.size(); k++) avail.push_back(Avail{z, k, z->outs[k]});
            sig += "M" + std::to_string(in.size()) + std::to_string(z->outs.size());
        }
        else
        {
            const auto a = r.pick(avail); const int style = int(r.below(5));
            auto x = std::make_shared<Xform>(r.fork(), a.s, style, !g_small && r.chance(1, 3) ? 1 + r.below(40) : 0); x->id = "xform" + std::to_string(style) + "#" + std::to_string(i); blocks.push_back(x);
            edges.push_back(Edge{a.b, a.port, x, 0, x->in}); avail.push_back(Avail{x, 0, x->out}); sig += "X" + std::to_string(style);
        }
    }
    //every stream is observed by at least one sink, some by several
    for (auto &a : avail) for (size_t k = 0, n = 1 + r.below(r.chance(1, 3) ? 3 : 1); k < n; k++)
    {
        auto s = std::make_shared<Sink>(r.fork(), a.s, !g_small && r.chance(1, 3) ? 1 + r.below(60) : 0); s->id = "sink of " + a.b->id + "[" + std::to_string(a.port) + "]"; blocks.push_back(s); sinks.push_back(s);
        edges.push_back(Edge{a.b, a.port, s, 0, s->in}); sig += "k";
    }
    //distinct edges only (zip may have picked the same stream twice, on different input ports: fine)
    std::vector<ThreadPool> pools; for (size_t i = 0, n = 1 + r.below(3); i < n; i++) pools.push_back(randPool(r, &sig));
    if (r.chance(2, 3)) for (auto &b : blocks) b->setThreadPool(r.pick(pools));
    {
        Topology t;
        for (auto &e : edges) t.connect(e.src, e.sp, e.dst, e.dp);
        t.commit();
        auto settled = [&] {
            for (auto &s : sinks) s->release(0);
            for (auto &s : sources) if (!s->done()) return false;
            for (auto &e : edges) if (e.st->s->elems - e.st->pos >= std::max<size_t>(1, e.st->reserve)) return false;
            return true; };
        const bool ok = waitUntil(settled, 6000);
        if (!ok)
        {
            std::ostringstream o; o << sig; for (auto &s : sources) o << " " << s->id << " done=" << s->done();
            for (auto &e : edges) o << "; " << e.src->id << "->" << e.dst->id << " produced " << e.st->s->elems << " consumed " << e.st->pos << " reserve " << e.st->reserve;
            violation("stream-not-delivered", o.str());
        }
        if (r.chance(1, 4)) { VF_CHECK(t.waitInactive(0.02, 60.0), "never-inactive", sig); count("wait_inactive"); for (auto &e : edges) VF_CHECK(e.st->pos <= e.st->s->elems, "consumed-more-than-produced", e.dst->id); }
    }
    uint64_t tot = 0;
    for (auto &e : edges) { VF_CHECK(e.st->pos <= e.st->s->elems, "consumed-more-than-produced", e.dst->id << " consumed " << e.st->pos << " of " << e.st->s->elems); tot += e.st->pos; }
    for (auto &e : edges) VF_CHECK(e.st->s->elems - e.st->pos < std::max<size_t>(1, e.st->reserve), "stream-elements-lost", e.src->id << "->" << e.dst->id << " produced " << e.st->s->elems << " consumed " << e.st->pos);
    count("edges_checked", edges.size()); count("elements_delivered", tot);
    distinct(sig); sample(sig + " " + std::to_string(tot) + " elements over " + std::to_string(edges.size()) + " connections");
}

//! buffers pushed into an input from outside the topology, by one or several threads
struct TagSink : Base
{
    std::vector<uint64_t> next; std::atomic<uint64_t> got{0};
    TagSink(Rng q, size_t n) : Base(q), next(n, 0) { setupInput(0, "uint64"); }
    void work(void)
    {
        auto p = input(0); const size_t n = p->elements(); if (!n) return; const size_t use = rng.flip() ? n : 1 + rng.below(n);
        auto a = p->buffer().as<const uint64_t *>();
        for (size_t i = 0; i < use; i++)
        {
            const size_t src = a[i] >> 48; const uint64_t seq = a[i] & 0xffffffffffffull;
            if (src >= next.size()) { violation("fan-in-garbage", std::to_string(a[i])); return; }
            if (seq != next[src]) { violation("fan-in-order", "pusher " + std::to_string(src) + " element " + std::to_string(seq) + " expected " + std::to_string(next[src])); next[src] = seq; }
            next[src]++;
        }
        p->consume(use); got += use; progress(); count("pushed_elements", use);
    }
};
struct TagSource : Base
{
    uint64_t tag, pos = 0, limit;
    TagSource(Rng q, uint64_t t, uint64_t l) : Base(q), tag(t << 48), limit(l) { setupOutput(0, "uint64"); }
    void work(void)
    {
        auto o = output(0); size_t n = std::min<size_t>(o->elements(), limit - pos); if (!n) return; n = 1 + rng.below(n);
        if (rng.flip()) { for (size_t i = 0; i < n; i++) o->buffer().as<uint64_t *>()[i] = tag | pos++; o->produce(n); }
        else { auto b = o->getBuffer(n); for (size_t i = 0; i < n; i++) b.as<uint64_t *>()[i] = tag | pos++; o->postBuffer(b); }
        if (pos < limit) yield();
    }
};
static void pushCase(Rng &r, uint64_t)
{
    const size_t np = r.below(4), ns = np ? r.below(3) : 1 + r.below(3);
    const uint64_t per = 400 + r.below(1500);
    auto sink = std::make_shared<TagSink>(r.fork(), np + ns); sink->id = "sink";
    std::vector<std::shared_ptr<TagSource>> srcs; std::vector<uint64_t> seeds;
    Topology t; t.setThreadPool(randPool(r));
    for (size_t i = 0; i < ns; i++) { srcs.push_back(std::make_shared<TagSource>(r.fork(), np + i, per)); t.connect(srcs.back(), 0, sink, 0); }
    auto keep = std::make_shared<TagSource>(r.fork(), 999, 0); t.connect(keep, 0, sink, 0);
    t.commit();
    std::vector<std::thread> ths;
    for (size_t i = 0; i < np; i++) { Rng q = r.fork(); ths.emplace_back([&, i, q]() mutable {
        uint64_t pos = 0; while (pos < per) { size_t n = std::min<uint64_t>(per - pos, 1 + q.below(50)); BufferChunk b("uint64", n); for (size_t k = 0; k < n; k++) b.as<uint64_t *>()[k] = (uint64_t(i) << 48) | pos++; sink->input(0)->pushBuffer(b); if (q.chance(1, 4)) std::this_thread::yield(); } }); }
    for (auto &x : ths) x.join();
    const bool ok = waitUntil([&] { return sink->got >= per * (np + ns); }, 6000);
    VF_CHECK(ok, "pushed-buffers-not-delivered", sink->got << " of " << per * (np + ns));
    VF_CHECK(sink->got <= per * (np + ns), "pushed-buffers-duplicated", sink->got << " of " << per * (np + ns));
    distinct(uint64_t(per * 16 + np * 4 + ns)); count("push_cases");
}

//! in-place blocks and slow readers on one output: fronts that span several buffers, of which a sibling has read only some
struct Filler : Base
{
    OutStreamP out{new OutStream()}; uint64_t limit; size_t part;
    Filler(Rng q, size_t size, uint64_t lim) : Base(q), limit(lim), part(rng.below(4)) { out->c.salt = rng.next(); out->size = size; setupOutput(0, DType("custom", size)); }
    void work(void)
    {
        auto o = output(0); size_t n = std::min<uint64_t>(o->elements(), limit - out->elems); if (n == 0) return;
        if (part == 0 && rng.chance(1, 4)) n = 1 + rng.below(n);
        gen(out->c, out->elems * out->size, o->buffer().as<unsigned char *>(), n * out->size);
        out->elems.fetch_add(n, std::memory_order_relaxed); o->produce(n); progress(); if (out->elems < limit) yield();
    }
};
struct Slow : Base
{
    InStateP in; size_t cap; unsigned nap;
    Slow(Rng q, OutStreamP s, size_t c, unsigned ms) : Base(q), in(new InState()), cap(c), nap(ms) { in->s = s; setupInput(0, DType("custom", s->size)); }
    void work(void)
    {
        auto p = input(0); const size_t n = p->elements(); if (n == 0) return; const size_t use = std::min(n, cap);
        if (p->buffer().getEnd() > p->buffer().getBuffer().getEnd()) count("spanning_fronts");
        if (nap && rng.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(nap)));
        verify(id, *in->s, in->pos, p->buffer().as<const void *>(), n);
        p->consume(use); in->pos.fetch_add(use, std::memory_order_relaxed); progress(); count("elements_verified", use); if (use < n) yield();
    }
};
static void siblingsCase(Rng &r, uint64_t)
{
    g_small = false; const size_t size = r.pick(std::vector<size_t>{4, 8, 16, 32}), per = 8192 / size; const uint64_t limit = per * r.range(8, 40) + r.below(per);
    auto src = std::make_shared<Filler>(r.fork(), size, limit); src->id = "filler"; std::vector<std::shared_ptr<Base>> all{src}; std::vector<InStateP> ends; std::vector<std::shared_ptr<Sink>> sinks; std::string sig = std::to_string(size) + ":";
    Topology t; const size_t nx = 1 + r.below(2), ns = 1 + r.below(2);
    for (size_t i = 0; i < nx; i++)
    {
        auto x = std::make_shared<Xform>(r.fork(), src->out, 1, r.chance(3, 4) ? per + 1 + r.below(per - 1) : 0); x->id = "inplace" + std::to_string(i); all.push_back(x); ends.push_back(x->in); t.connect(src, 0, x, 0); sig += "x" + std::to_string(x->in->reserve > 0);
        auto z = std::make_shared<Slow>(r.fork(), x->out, per * 2, 0); z->id = "after " + x->id; all.push_back(z); ends.push_back(z->in); t.connect(x, 0, z, 0);
    }
    for (size_t i = 0; i < ns; i++) { auto z = std::make_shared<Slow>(r.fork(), src->out, r.flip() ? per : 1 + r.below(per), unsigned(r.below(3) * 300)); z->id = "slow" + std::to_string(i); all.push_back(z); ends.push_back(z->in); t.connect(src, 0, z, 0); sig += "s" + std::to_string(z->nap); }
    if (r.flip()) { auto p = randPool(r, &sig); for (auto &b : all) b->setThreadPool(p); }
    t.commit();
    const bool ok = waitUntil([&] { if (src->out->elems < limit) return false; for (auto &e : ends) if (e->s->elems - e->pos >= std::max<size_t>(1, e->reserve)) return false; return true; }, 6000);
    std::ostringstream o; o << sig << " source " << src->out->elems << "/" << limit; for (auto &e : ends) o << "; produced " << e->s->elems << " consumed " << e->pos << " reserve " << e->reserve;
    VF_CHECK(ok, "stream-not-delivered", o.str()); count("sibling_designs"); distinct(sig + std::to_string(limit)); sample(o.str());
}

int main(int argc, char **argv)
{
    initLib();
    registerFakeCopier();
    return run(argc, argv, {{"graph", graphCase}, {"push", pushCase}, {"siblings", siblingsCase}});
}
