// C02: labels stay attached to the element they marked
#include "flow.hpp"
using namespace flow;

//! The labels of a stream are a pure function of the base element index; den/mul relocate them (rate changes).
struct LStream
{
    uint64_t salt; size_t size; uint64_t mul = 1, div = 1; std::atomic<uint64_t> elems{0}; unsigned density = 10;
    unsigned nAt(uint64_t i) const { const uint64_t h = mix(salt + i * 0x9E3779B97F4A7C15ull); return h % 100 < density ? 1 + (h >> 32) % 3 : 0; }
    Label make(uint64_t i, unsigned k) const
    {
        const uint64_t h = mix(salt ^ (i * 8 + k));
        Label l("L" + std::to_string(i) + "." + std::to_string(k), Object(), 0);
        switch (h % 4) { case 0: l.data = Object((long long)i); break; case 1: l.data = Object("data" + std::to_string(i)); break; case 2: l.data = Object(std::vector<double>(h / 8 % 5, double(i))); break; default: break; }
        l.width = 1 + (h >> 20) % 5;
        return l;
    }
    bool dataOk(const Label &got, uint64_t i, unsigned k) const { return deepEq(make(i, k).data, got.data); }
    uint64_t posOf(uint64_t base) const { return base * mul / div; }
    uint64_t firstBase(uint64_t pos) const { return (pos * div + mul - 1) / mul; } //first base element located at or after pos
};
typedef std::shared_ptr<LStream> LS;

struct Checker
{
    LS s; std::atomic<uint64_t> pos{0}; std::string id; std::set<std::string> removed; bool mayFuture = false;
    //! the labels offered with n elements available, positions relative to pos
    void check(const LabelIteratorRange &labels, size_t n)
    {
        std::map<std::string, std::pair<uint64_t, unsigned>> expect; //id -> base, k
        std::map<std::string, uint64_t> at;
        for (uint64_t b = s->firstBase(pos); s->posOf(b) < pos + n; b++)
            for (unsigned k = 0, m = s->nAt(b); k < m; k++) { auto l = s->make(b, k); if (!removed.count(l.id)) { expect[l.id] = {b, k}; at[l.id] = s->posOf(b) - pos; } }
        uint64_t last = 0; std::set<std::string> seen;
        for (const auto &l : labels)
        {
            if (l.index < last) { std::ostringstream o; o << id << " label order: " << l.id << " at " << l.index << " after " << last; violation("labels-not-sorted", o.str()); }
            last = l.index;
            if (!seen.insert(l.id).second) violation("label-duplicated", id + " " + l.id);
            if (l.index >= n) continue; //marks an element that is not consumable yet
            auto it = expect.find(l.id);
            if (it == expect.end()) { std::ostringstream o; o << id << " at stream position " << pos + l.index << " got label " << l.id << " that does not belong to this element range (n=" << n << " pos=" << pos << ")"; violation("label-unexpected", o.str()); continue; }
            if (at[l.id] != l.index) { std::ostringstream o; o << id << " label " << l.id << " at " << pos + l.index << " expected " << pos + at[l.id]; violation("label-position", o.str()); }
            const auto ref = s->make(it->second.first, it->second.second);
            if (!deepEq(ref.data, l.data)) violation("label-data", id + " " + l.id + " " + l.data.toString());
            const size_t w = ref.width * s->mul / s->div;
            if (w != l.width) { std::ostringstream o; o << id << " " << l.id << " width " << l.width << " expected " << w; violation("label-width", o.str()); }
            expect.erase(it); count("labels_checked");
        }
        for (auto &e : expect) { std::ostringstream o; o << id << " label " << e.first << " of consumable element " << pos + at[e.first] << " missing (pos " << pos << " n " << n << ")"; violation("label-missing", o.str()); }
    }
};

struct LSource : Base
{
    std::vector<LS> outs; uint64_t limit; size_t maxChunk; bool shuffle; std::vector<uint64_t> posted; bool future;
    LSource(Rng q, size_t no, uint64_t lim, size_t mc) : Base(q), limit(lim), maxChunk(mc), shuffle(rng.flip()), future(rng.chance(1, 3))
    {
        const size_t size = rng.pick(std::vector<size_t>{1, 2, 4, 8, 12});
        for (size_t i = 0; i < no; i++) { auto s = std::make_shared<LStream>(); s->salt = rng.next(); s->size = size; s->density = unsigned(rng.pick(std::vector<unsigned>{2, 10, 60})); outs.push_back(s); setupOutput(i, DType("custom", size)); }
        posted.assign(no, 0);
    }
    std::vector<std::set<uint64_t>> early;
    void work(void)
    {
        early.resize(outs.size());
        bool more = false;
        for (size_t i = 0; i < outs.size(); i++)
        {
            auto &s = *outs[i]; auto o = output(i); const uint64_t at = s.elems; size_t n = std::min<uint64_t>(1 + rng.below(maxChunk), limit - at);
            if (n == 0) continue;
            const unsigned how = rng.below(3);
            if (how == 0) { n = std::min(n, o->elements()); memset(o->buffer().as<char *>(), int(at), n * s.size); o->produce(n); }
            else if (how == 1) { auto b = o->getBuffer(n); memset(b.as<char *>(), int(at), n * s.size); o->postBuffer(b); }
            else { size_t left = n; while (left) { const size_t k = 1 + rng.below(left); BufferChunk b(o->dtype(), k); o->postBuffer(std::move(b)); left -= k; } }
            std::vector<Label> ls;
            for (uint64_t e = at; e < at + n; e++) if (!early[i].erase(e)) for (unsigned k = 0; k < s.nAt(e); k++) { auto l = s.make(e, k); l.index = e - at; ls.push_back(l); }
            if (future && rng.chance(1, 4)) //a label for an element still to be produced
            {
                const uint64_t e = at + n + rng.below(200);
                if (e < limit && s.nAt(e) && early[i].insert(e).second) { for (unsigned k = 0; k < s.nAt(e); k++) { auto l = s.make(e, k); l.index = e - at; ls.push_back(l); } count("future_labels"); }
            }
            if (shuffle) for (size_t k = ls.size(); k > 1; k--) std::swap(ls[k - 1], ls[rng.below(k)]);
            for (auto &l : ls) { if (rng.flip()) o->postLabel(l); else if (l.width == 1 && rng.flip()) o->postLabel(l.id, l.data, l.index); else o->postLabel(std::move(l)); count("labels_posted"); }
            s.elems = at + n; if (at + n < limit) more = true;
        }
        progress(); if (more) yield();
    }
};

struct LSink : Base
{
    Checker c; bool remover;
    LSink(Rng q, LS s) : Base(q), remover(rng.chance(1, 3)) { c.s = s; setupInput(0, DType("custom", s->size)); if (rng.chance(1, 4)) input(0)->setReserve(1 + rng.below(30)); }
    void work(void)
    {
        auto p = input(0); const size_t n = p->elements(); if (!n) return;
        c.check(p->labels(), n);
        if (remover && p->labels().begin() != p->labels().end() && rng.flip())
        {
            std::vector<Label> all(p->labels().begin(), p->labels().end());
            const auto &l = all[rng.below(all.size())];
            const auto before = p->totalLabels();
            p->removeLabel(l); c.removed.insert(l.id); count("labels_removed");
            VF_CHECK(p->totalLabels() == before + 1, "removed-label-total", before << " -> " << p->totalLabels());
            c.check(p->labels(), n);
        }
        const size_t use = rng.flip() ? n : 1 + rng.below(n);
        p->consume(use); c.pos += use; progress();
    }
    //! labels of consumed elements are handed to propagateLabels, exactly those
    uint64_t before = 0;
};

//! one in, 1-2 out. style 0: same rate default propagation; 1: decimate by d; 2: interpolate by d; 3: repack to another element size
struct LXform : Base
{
    Checker c; std::vector<LS> outs; int style; uint64_t d; uint64_t posBefore = 0; size_t used = 0;
    LXform(Rng q, LS s, int st, size_t no) : Base(q), style(st), d(2 + rng.below(4))
    {
        c.s = s; setupInput(0, DType("custom", s->size)); if (style == 1) input(0)->setReserve(d);
        for (size_t i = 0; i < no; i++)
        {
            auto o = std::make_shared<LStream>(); o->salt = s->salt; o->density = s->density; o->mul = s->mul; o->div = s->div; o->size = s->size;
            if (style == 1) o->div *= d; if (style == 2 || style == 3) o->mul *= d;
            outs.push_back(o); setupOutput(i, DType("custom", o->size));
        }
    }
    void propagateLabels(const InputPort *in)
    {
        //exactly the labels on consumed elements, sorted, still carrying their positions
        uint64_t last = 0; size_t n = 0;
        for (auto &l : in->labels()) { n++; if (l.index >= used) { std::ostringstream o; o << c.id << " propagated label " << l.id << " index " << l.index << " of " << used << " consumed"; violation("propagated-unconsumed-label", o.str()); } if (l.index < last) violation("labels-not-sorted", "propagate"); last = l.index; }
        uint64_t expect = 0; for (uint64_t b = c.s->firstBase(posBefore); c.s->posOf(b) < posBefore + used; b++) expect += c.s->nAt(b);
        if (n != expect) { std::ostringstream o; o << c.id << " propagated " << n << " labels of " << expect << " on " << used << " consumed elements"; violation("propagated-label-count", o.str()); }
        count("propagations");
        if (style == 0) { Block::propagateLabels(in); return; }
        for (auto &l : in->labels()) for (size_t i = 0; i < outs.size(); i++) { if (style == 1) output(i)->postLabel(l.toAdjusted(1, d)); else output(i)->postLabel(l.toAdjusted(d, 1)); }
    }
    void work(void)
    {
        auto p = input(0); size_t n = p->elements(); if (!n) return;
        c.check(p->labels(), n);
        size_t use = n; for (size_t i = 0; i < outs.size(); i++) use = std::min(use, style == 2 || style == 3 ? output(i)->elements() / size_t(d) : output(i)->elements());
        if (style == 1) use = n / d * d; if (rng.flip() && use > 1) use = 1 + rng.below(use); if (style == 1) use = use / d * d;
        if (use == 0) { if (style == 1 && n >= d) use = d; else { yield(); return; } }
        const size_t prod = style == 1 ? use / d : style == 0 ? use : use * d;
        for (size_t i = 0; i < outs.size(); i++)
        {
            if (rng.flip()) { auto b = output(i)->getBuffer(prod); output(i)->postBuffer(b); }
            else if (output(i)->elements() >= prod) output(i)->produce(prod);
            else { BufferChunk b(output(i)->dtype(), prod); output(i)->postBuffer(std::move(b)); }
            outs[i]->elems += prod;
        }
        p->consume(use); posBefore = c.pos; used = use; c.pos += use; progress();
    }
};

static void graphCase(Rng &r, uint64_t)
{
    std::string sig; const uint64_t limit = 300 + r.below(2500);
    std::vector<std::shared_ptr<Base>> blocks; struct E { std::shared_ptr<Base> a; size_t p; std::shared_ptr<Base> b; Checker *c; }; std::vector<E> edges;
    auto src = std::make_shared<LSource>(r.fork(), 1 + r.below(2), limit, r.pick(std::vector<size_t>{1, 5, 50, 500})); src->id = "src"; blocks.push_back(src);
    struct A { std::shared_ptr<Base> b; size_t p; LS s; bool rated; }; std::vector<A> avail; for (size_t i = 0; i < src->outs.size(); i++) avail.push_back(A{src, i, src->outs[i], false});
    for (size_t i = 0, n = r.below(4); i < n; i++)
    {
        const auto a = r.pick(avail); const int style = a.rated ? 0 : int(r.below(3));
        auto x = std::make_shared<LXform>(r.fork(), a.s, style, 1 + r.below(2)); x->id = x->c.id = "x" + std::to_string(style) + "#" + std::to_string(i); blocks.push_back(x);
        edges.push_back(E{a.b, a.p, x, &x->c}); for (size_t k = 0; k < x->outs.size(); k++) avail.push_back(A{x, k, x->outs[k], a.rated || style != 0}); sig += "X" + std::to_string(style) + std::to_string(x->outs.size());
    }
    for (auto &a : avail) for (size_t k = 0, n = 1 + r.below(2); k < n; k++) { auto s = std::make_shared<LSink>(r.fork(), a.s); s->id = s->c.id = "sink of " + a.b->id; blocks.push_back(s); edges.push_back(E{a.b, a.p, s, &s->c}); sig += "k"; }
    if (r.flip()) { std::vector<ThreadPool> pools; for (size_t i = 0, n = 1 + r.below(2); i < n; i++) pools.push_back(randPool(r, &sig)); for (auto &b : blocks) b->setThreadPool(r.pick(pools)); }
    {
        Topology t; for (auto &e : edges) t.connect(e.a, e.p, e.b, 0); t.commit();
        const bool ok = waitUntil([&] { for (auto &o : src->outs) if (o->elems < limit) return false; for (auto &e : edges) { const size_t slack = e.b->input(0)->dtype().size() ? 31 : 0; if (e.c->s->elems - e.c->pos >= slack) return false; } return true; }, 6000);
        VF_CHECK(ok, "stalled", sig);
        VF_CHECK(t.waitInactive(0.02, 60.0), "never-inactive", sig);
    }
    sig += ":" + std::to_string(src->outs[0]->density) + (src->shuffle ? "s" : "") + (src->future ? "f" : "");
    distinct(sig); sample(sig); count("label_topologies");
}

//! the sending port counts in another element size than the receiving port (buffers are posted with the receiver's type)
struct XSource : Base
{
    LS s; uint64_t limit; size_t a, b; //a: my size, b: receiver size; labels of receiver element e are posted at my index e*b/a
    XSource(Rng q, LS st, uint64_t lim, size_t as) : Base(q), s(st), limit(lim), a(as), b(st->size) { setupOutput(0, DType("custom", a)); }
    void work(void)
    {
        const uint64_t at = s->elems; size_t n = std::min<uint64_t>(1 + rng.below(40), limit - at); if (!n) return; if (n * b % a) n = std::min<uint64_t>(limit - at, ((n + a - 1) / a) * a);
        BufferChunk c(DType("custom", b), n); output(0)->postBuffer(std::move(c));
        for (uint64_t e = at; e < at + n; e++) for (unsigned k = 0; k < s->nAt(e); k++)
        {
            auto l = s->make(e, k); l.index = (e - at) * b / a; l.width = l.width * b / a; //b is a multiple of a
            output(0)->postLabel(l); count("labels_posted");
        }
        s->elems = at + n; progress(); if (at + n < limit) yield();
    }
};
static void xsizeCase(Rng &r, uint64_t)
{
    auto s = std::make_shared<LStream>(); s->salt = r.next(); s->density = 30; const size_t a = 1 + r.below(6); s->size = a * (1 + r.below(6));
    const uint64_t limit = 200 + r.below(600);
    auto src = std::make_shared<XSource>(r.fork(), s, limit, a); auto sink = std::make_shared<LSink>(r.fork(), s); sink->c.id = "sink " + std::to_string(a) + "->" + std::to_string(s->size); sink->input(0)->setReserve(0);
    Topology t; t.connect(src, 0, sink, 0); t.commit();
    VF_CHECK(waitUntil([&] { return sink->c.pos >= limit; }, 6000), "stalled", sink->c.id << " " << sink->c.pos << " of " << limit);
    distinct(sink->c.id); count("cross_size");
}

//! labels and buffers preloaded from outside, before and while the block runs
static void preloadCase(Rng &r, uint64_t)
{
    auto s = std::make_shared<LStream>(); s->salt = r.next(); s->density = 30; s->size = 1;
    auto sink = std::make_shared<LSink>(r.fork(), s); sink->c.id = "preloaded"; sink->input(0)->setReserve(0); sink->remover = false;
    auto idle = std::make_shared<LSource>(r.fork(), 1, 0, 1);
    auto feeder = std::make_shared<LSource>(r.fork(), 1, 0, 1);
    uint64_t at = 0; const uint64_t limit = 100 + r.below(300);
    while (at < limit)
    {
        const size_t n = std::min<uint64_t>(limit - at, 1 + r.below(60)); BufferChunk b("uint8", n); sink->input(0)->pushBuffer(b);
        for (uint64_t e = at; e < at + n; e++) for (unsigned k = 0; k < s->nAt(e); k++) { auto l = s->make(e, k); l.index = e; sink->input(0)->pushLabel(l); count("labels_pushed"); }
        at += n;
    }
    s->elems = at;
    Topology t; auto src = std::make_shared<Base>(r.fork()); src->setupOutput(0, "uint8"); t.connect(src, 0, sink, 0); t.commit();
    VF_CHECK(waitUntil([&] { return sink->c.pos >= limit; }, 6000), "stalled", "preload " << sink->c.pos << " of " << limit);
    distinct(limit);
}

//! Label arithmetic and ordering
static void labelCase(Rng &r, uint64_t)
{
    for (int i = 0; i < 200; i++)
    {
        Label l("x", Object(1), r.below(1ull << 40)); l.width = 1 + r.below(1000);
        const uint64_t m = 1 + r.below(64), d = 1 + r.below(64);
        const auto a = l.toAdjusted(m, d);
        VF_CHECK(a.index == l.index * m / d && a.width == l.width * m / d && a.id == l.id && deepEq(a.data, l.data), "label-adjust", l.index << "*" << m << "/" << d << " = " << a.index);
        auto b = l; VF_CHECK(&b.adjust(m, d) == &b && b == a, "label-adjust-in-place", "");
        VF_CHECK(l.toAdjusted(m, 1).toAdjusted(1, m) == l, "label-adjust-inverse", "");
        Label o = l; o.index = r.below(1ull << 40);
        VF_CHECK((l < o) == (l.index < o.index), "label-order", "");
        Label e = l; VF_CHECK(e == l, "label-equal", ""); e.id = "y"; VF_CHECK(!(e == l), "label-equal-id", ""); e = l; e.width++; VF_CHECK(!(e == l), "label-equal-width", ""); e = l; e.index++; VF_CHECK(!(e == l), "label-equal-index", ""); 
        count("label_arith");
    }
    distinct(r.next());
}

int main(int argc, char **argv)
{
    initLib();
    return run(argc, argv, {{"graph", graphCase}, {"xsize", xsizeCase}, {"preload", preloadCase}, {"label", labelCase}});
}
