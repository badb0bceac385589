// C03: messages and slot calls arrive once, in order, with their values
#include "flow.hpp"
using namespace flow;

//! message number seq of sender src: value and type are pure functions, so that the receiver needs no shared log
static ObjectVector argsOf(uint64_t src, uint64_t seq);
static Object valueOf(uint64_t src, uint64_t seq)
{
    const uint64_t h = mix(src * 1000003 + seq);
    switch (h % 6)
    {
    case 0: return Object(std::vector<long long>{(long long)src, (long long)seq, (long long)(h >> 8)});
    case 1: return Object("m:" + std::to_string(src) + ":" + std::to_string(seq) + ":" + std::string(h >> 56, char('a' + h % 26)));
    case 2: { Packet p; p.payload = BufferChunk("uint8", 1 + (h >> 50) % 90); memset(p.payload.as<void *>(), int(h >> 9), p.payload.length); p.metadata["src"] = Object((long long)src); p.metadata["seq"] = Object((long long)seq); p.labels.push_back(Label("l", Object(), seq)); return Object(p); }
    case 3: return Object(argsOf(src, seq));
    case 4: { ObjectKwargs k; k["src"] = Object((long long)src); k["seq"] = Object((long long)seq); return Object(k); }
    default: return Object(std::make_pair((long long)src, (long long)seq));
    }
}
typedef std::pair<long long, long long> LLPair;
static ObjectVector argsOf(uint64_t src, uint64_t seq)
{
    const uint64_t h = mix(src * 77 + seq); ObjectVector v; v.push_back(Object((long long)src)); v.push_back(Object((long long)seq));
    for (uint64_t i = 0, n = h % 4; i < n; i++) { if (i == 0) v.push_back(Object("arg" + std::to_string(h))); else if (i == 1) v.push_back(Object(double(h % 1000) / 8)); else v.push_back(Object(std::vector<int>(3, int(h & 0xffff)))); }
    return v;
}
static bool decode(const Object &o, uint64_t &src, uint64_t &seq)
{
    if (!o) return false;
    if (o.type() == typeid(std::vector<long long>)) { auto &v = o.extract<std::vector<long long>>(); if (v.size() < 2) return false; src = v[0]; seq = v[1]; }
    else if (o.type() == typeid(std::string)) { unsigned long long a, b; if (sscanf(o.extract<std::string>().c_str(), "m:%llu:%llu", &a, &b) != 2) return false; src = a; seq = b; }
    else if (o.type() == typeid(Packet)) { auto &k = o.extract<Packet>().metadata; src = k.at("src").extract<long long>(); seq = k.at("seq").extract<long long>(); }
    else if (o.type() == typeid(ObjectKwargs)) { auto &k = o.extract<ObjectKwargs>(); src = k.at("src").extract<long long>(); seq = k.at("seq").extract<long long>(); }
    else if (o.type() == typeid(ObjectVector)) { auto &k = o.extract<ObjectVector>(); if (k.size() < 2) return false; src = k[0].convert<long long>(); seq = k[1].convert<long long>(); }
    else if (o.type() == typeid(LLPair)) { src = o.extract<LLPair>().first; seq = o.extract<LLPair>().second; }
    else return false;
    return true;
}
static bool sameValue(const Object &a, const Object &b)
{
    if (a.type() == typeid(LLPair)) return b.type() == typeid(LLPair) && a.extract<LLPair>() == b.extract<LLPair>();
    return deepEq(a, b);
}

//! one receiving end: the next expected number of every sender connected to it
struct Recv
{
    std::string id; std::map<uint64_t, uint64_t> next; std::map<uint64_t, std::shared_ptr<std::atomic<uint64_t>>> seen; //seen: bumped before the token is given back
    void expect(uint64_t src) { next[src] = 0; seen[src] = std::make_shared<std::atomic<uint64_t>>(0); }
    void got(uint64_t src, uint64_t seq)
    {
        auto it = next.find(src);
        if (it == next.end()) { violation("message-misrouted", id + " from " + std::to_string(src)); return; }
        if (seq != it->second) { std::ostringstream o; o << id << " sender " << src << " message " << seq << " arrived, expected " << it->second; violation(seq < it->second ? "message-duplicated-or-reordered" : "message-lost-or-reordered", o.str()); }
        it->second = seq + 1; count("deliveries"); progress();
    }
    uint64_t total(void) const { uint64_t n = 0; for (auto &p : next) n += p.second; return n; }
};

struct MSink : Base
{
    std::vector<Recv> ins; bool thrower; size_t totalPopped = 0; bool mixedStream;
    std::vector<std::atomic<uint64_t>> pops;
    MSink(Rng q, size_t n) : Base(q), ins(n), thrower(rng.chance(1, 4)), mixedStream(rng.flip()), pops(n)
    {
        for (size_t i = 0; i < n; i++) { setupInput(i, rng.flip() ? "" : "float32"); if (rng.chance(1, 3)) input(i)->setReserve(5); }
    }
    void work(void)
    {
        bool boom = false;
        for (size_t i = 0; i < ins.size(); i++)
        {
            auto p = input(i); if (!p->hasMessage()) continue;
            size_t k = rng.flip() ? 1 : 1 + rng.below(40);
            while (k-- && p->hasMessage())
            {
                const auto before = p->totalMessages();
                if (rng.chance(1, 4)) { auto a = p->peekMessage(), b = p->peekMessage(); uint64_t s = 0, n = 0; VF_CHECK(decode(a, s, n) && ins[i].next.count(s) && ins[i].next[s] == n && sameValue(a, b), "peek-not-next", id); count("peeks"); VF_CHECK(p->totalMessages() == before, "peek-counted", id); }
                else { uint64_t s = 0, n = 0; (void)s; (void)n; }
                uint64_t src = ~0ull, seq = 0;
                { auto pk = p->peekMessage(); if (decode(pk, src, seq) && ins[i].seen.count(src)) ins[i].seen[src]->fetch_add(1, std::memory_order_relaxed); } //before the token returns
                auto m = p->popMessage();
                VF_CHECK(p->totalMessages() == before + 1, "message-total", id << " " << before << "->" << p->totalMessages());
                uint64_t src2 = ~0ull, seq2 = 0;
                if (!decode(m, src2, seq2)) { violation("message-value", id + " got " + m.toString()); continue; }
                VF_CHECK(sameValue(m, valueOf(src2, seq2)), "message-value", id << " sender " << src2 << " message " << seq2 << ": " << m.toString());
                ins[i].got(src2, seq2); pops[i].fetch_add(1, std::memory_order_relaxed);
                if (thrower && rng.chance(1, 8)) boom = true;
            }
            if (p->hasMessage()) yield();
        }
        if (boom) { count("handler_exceptions"); switch (rng.below(3)) { case 0: throw Pothos::RuntimeException("work boom"); case 1: throw std::runtime_error("boom"); default: throw 7; } }
    }
};

//! slots: every call is checked and counted; some throw
struct MSlots : Base
{
    Recv rx; bool thrower; std::atomic<uint64_t> calls{0}; uint64_t zeroCalls = 0; std::atomic<uint64_t> probesAnswered{0};
    std::atomic<int> nested{0};
    MSlots(Rng q) : Base(q), thrower(rng.chance(1, 3))
    {
        registerCall(this, "on", &MSlots::on2); registerCall(this, "on", &MSlots::on3); registerCall(this, "on", &MSlots::on4); registerCall(this, "on", &MSlots::on5);
        registerCall(this, "probeable", &MSlots::probeable); registerProbe("probeable");
        registerCall(this, "trigger", &MSlots::trigger); registerCall(this, "fail", &MSlots::fail); registerProbe("fail", "failSig", "failSlot");
    }
    void maybe(void) { calls.fetch_add(1, std::memory_order_relaxed); if (thrower && rng.chance(1, 5)) { count("handler_exceptions"); if (rng.flip()) throw std::runtime_error("slot boom"); throw 3; } }
    void record(const ObjectVector &got)
    {
        const uint64_t src = got[0].convert<long long>(), seq = got[1].convert<long long>();
        if (rx.seen.count(src)) rx.seen[src]->fetch_add(1, std::memory_order_relaxed);
        const auto ref = argsOf(src, seq);
        VF_CHECK(got.size() == ref.size(), "slot-arguments", id << " " << got.size() << " of " << ref.size());
        for (size_t i = 0; i < std::min(got.size(), ref.size()); i++) VF_CHECK(deepEq(got[i], ref[i]), "slot-arguments", id << " argument " << i << " " << got[i].toString() << " expected " << ref[i].toString());
        rx.got(src, seq); count("slot_calls"); maybe();
    }
    void on2(long long a, long long b) { record({Object(a), Object(b)}); }
    void on3(long long a, long long b, const std::string &c) { record({Object(a), Object(b), Object(c)}); }
    void on4(long long a, long long b, const std::string &c, double d) { record({Object(a), Object(b), Object(c), Object(d)}); }
    void on5(long long a, long long b, const std::string &c, double d, const std::vector<int> &e) { record({Object(a), Object(b), Object(c), Object(d), Object(e)}); }
    long long probeable(long long src, long long seq) { probesAnswered.fetch_add(1, std::memory_order_relaxed); progress(); return (long long)(mix(src * 31 + seq) >> 1); }
    long long fail(long long, long long) { throw Pothos::RuntimeException("probe fails"); }
    void trigger(void) { zeroCalls++; calls.fetch_add(1, std::memory_order_relaxed); }
    //a slot-only block has no buffered inputs: its work is called whenever it is woken
    void work(void) {}
};

//! collects the replies of probes: in order, with the probed value
struct MReply : Base
{
    uint64_t src; std::atomic<uint64_t> next{0};
    MReply(Rng q, uint64_t s) : Base(q), src(s) { registerCall(this, "reply", &MReply::reply); }
    void reply(long long v)
    {
        if (v != (long long)(mix(src * 31 + next) >> 1)) { std::ostringstream o; o << "reply " << next << " of prober " << src << " is " << v; violation("probe-reply", o.str()); }
        next++; count("probe_replies"); progress();
    }
    void work(void) {}
};

struct MSource : Base
{
    struct Out { uint64_t src; bool signal; std::string port; std::atomic<uint64_t> sent{0}; uint64_t limit = 0; size_t burst = 1; std::vector<std::shared_ptr<std::atomic<uint64_t>>> seenBy; bool probe = false; size_t lag = 0; };
    std::vector<std::unique_ptr<Out>> outs; bool thrower;
    MSource(Rng q, size_t n, uint64_t limit, uint64_t &ids) : Base(q), thrower(rng.chance(1, 5))
    {
        for (size_t i = 0; i < n; i++)
        {
            outs.emplace_back(new Out()); auto &o = *outs.back(); o.src = ids++; o.signal = rng.flip(); o.limit = limit; o.burst = rng.flip() ? 1 : 1 + rng.below(16);
            if (o.signal) { o.port = "sig" + std::to_string(i); registerSignal(o.port); } else { o.port = std::to_string(i); setupOutput(o.port, rng.flip() ? "" : "int32"); }
        }
    }
    void work(void)
    {
        bool more = false;
        for (auto &op : outs)
        {
            auto &o = *op; const uint64_t at = o.sent.load(std::memory_order_relaxed);
            //back-pressure: 16 tokens per output; one must be free to get here and every earlier call with undelivered messages holds at least one
            for (auto &s : o.seenBy) { const uint64_t out = at - std::min<uint64_t>(at, s->load(std::memory_order_relaxed)); VF_CHECK(out <= 16 * o.burst - 1 + o.lag, "back-pressure-exceeded", id << " entered work with " << out << " undelivered messages on " << o.port << " burst " << o.burst << " lag " << o.lag); if (out >= 12) count("near_full_outputs"); }
            for (size_t k = 1 + rng.below(o.burst), i = 0; i < k && o.sent < o.limit; i++)
            {
                const uint64_t seq = o.sent.load(std::memory_order_relaxed); auto p = output(o.port); const auto tot = p->totalMessages();
                if (o.probe) emitSignal(o.port, (long long)o.src, (long long)seq);
                else if (o.signal)
                {
                    const auto a = argsOf(o.src, seq);
                    switch (a.size())
                    {
                    case 2: if (rng.flip()) emitSignal(o.port, a[0], a[1]); else emitSignal(o.port, a[0].extract<long long>(), a[1].extract<long long>()); break;
                    case 3: emitSignal(o.port, a[0], a[1], a[2]); break;
                    case 4: emitSignal(o.port, a[0], a[1], a[2], a[3]); break;
                    default: if (rng.flip()) emitSignal(o.port, a[0], a[1], a[2], a[3], a[4]); else this->callVoid(o.port, a[0], a[1], a[2], a[3], a[4]); break;
                    }
                    count("signals_emitted");
                }
                else { p->postMessage(valueOf(o.src, seq)); count("messages_posted"); }
                VF_CHECK(p->totalMessages() == tot + 1, "posted-message-total", id);
                o.sent.fetch_add(1, std::memory_order_relaxed);
            }
            if (o.sent < o.limit) more = true;
        }
        progress(); if (more) yield();
        if (thrower && rng.chance(1, 10)) { count("sender_exceptions"); throw Pothos::RuntimeException("after posting"); }
    }
};

//! a signal connected to an ordinary input delivers its argument list as a message
struct MArgSink : Base
{
    Recv rx;
    MArgSink(Rng q) : Base(q) { setupInput(0); }
    void work(void)
    {
        while (input(0)->hasMessage())
        {
            uint64_t src = ~0ull, seq = 0; { auto pk = input(0)->peekMessage(); if (decode(pk, src, seq) && rx.seen.count(src)) rx.seen[src]->fetch_add(1, std::memory_order_relaxed); }
            auto m = input(0)->popMessage();
            if (!decode(m, src, seq) || m.type() != typeid(ObjectVector)) { violation("message-value", id + " " + m.toString()); continue; }
            VF_CHECK(deepEq(m, Object(argsOf(src, seq))), "message-value", id << m.toString()); rx.got(src, seq); count("signal_messages");
        }
    }
};

static void graphCase(Rng &r, uint64_t)
{
    std::string sig; uint64_t ids = 0; const uint64_t limit = 40 + r.below(400);
    std::vector<std::shared_ptr<Base>> all; std::vector<std::shared_ptr<MSource>> srcs; std::vector<std::shared_ptr<MSink>> sinks; std::vector<std::shared_ptr<MSlots>> slots; std::vector<std::shared_ptr<MArgSink>> argSinks; std::vector<std::shared_ptr<MReply>> replies;
    for (size_t i = 0, n = 1 + r.below(3); i < n; i++) { srcs.push_back(std::make_shared<MSource>(r.fork(), 1 + r.below(3), limit, ids)); srcs.back()->id = "src" + std::to_string(i); }
    for (size_t i = 0, n = 1 + r.below(3); i < n; i++) { sinks.push_back(std::make_shared<MSink>(r.fork(), 1 + r.below(2))); sinks.back()->id = "sink" + std::to_string(i); for (auto &q : sinks.back()->ins) q.id = sinks.back()->id; }
    for (size_t i = 0, n = 1 + r.below(2); i < n; i++) { slots.push_back(std::make_shared<MSlots>(r.fork())); slots.back()->id = slots.back()->rx.id = "slots" + std::to_string(i); }
    for (size_t i = 0, n = r.below(2); i < n; i++) { argSinks.push_back(std::make_shared<MArgSink>(r.fork())); argSinks.back()->id = argSinks.back()->rx.id = "args" + std::to_string(i); }
    struct Edge { std::shared_ptr<Base> a; std::string ap; std::shared_ptr<Base> b; std::string bp; MSource::Out *o; Recv *rx; }; std::vector<Edge> edges;
    //a probing source: signal -> probe slot, reply signal -> reply block
    struct P { std::shared_ptr<MSource> q; std::shared_ptr<MSlots> s; std::shared_ptr<MReply> rep; }; std::vector<P> probes;
    if (r.chance(1, 2)) for (auto &sl : slots)
    {
        P p; p.q = std::make_shared<MSource>(r.fork(), 1, limit, ids); auto &o = *p.q->outs[0]; if (!o.signal) { p.q->registerSignal("probe"); o.signal = true; o.port = "probe"; } o.probe = true; p.q->id = "prober"; p.s = sl; p.rep = std::make_shared<MReply>(r.fork(), o.src); probes.push_back(p); all.push_back(p.q); all.push_back(p.rep);
        sig += "P";
    }
    for (auto &s : srcs) for (auto &op : s->outs)
    {
        std::set<std::pair<Base *, std::string>> used;
        for (size_t k = 0, n = 1 + r.below(3); k < n; k++)
        {
            Edge e; e.a = s; e.ap = op->port; e.o = op.get(); e.rx = nullptr;
            if (op->signal)
            {
                if (!argSinks.empty() && r.chance(1, 3)) { auto b = r.pick(argSinks); e.b = b; e.bp = "0"; e.rx = &b->rx; }
                else { auto b = r.pick(slots); e.b = b; e.bp = "on"; e.rx = &b->rx; }
            }
            else { auto b = r.pick(sinks); const size_t q = r.below(b->ins.size()); e.b = b; e.bp = std::to_string(q); e.rx = &b->ins[q]; }
            if (!used.insert({e.b.get(), e.bp}).second) continue;
            e.rx->expect(op->src); op->seenBy.push_back(e.rx->seen[op->src]); if (e.bp == "on") op->lag = 1;
            edges.push_back(e); sig += (op->signal ? "g" : "m") + e.bp;
        }
    }
    //stay within the documented bound of 1024 queued messages per input: 16 tokens of at most one burst per sender
    { std::map<Recv *, std::vector<MSource::Out *>> by; for (auto &e : edges) by[e.rx].push_back(e.o); for (auto &p : by) for (auto *o : p.second) o->burst = std::max<size_t>(1, std::min<size_t>(o->burst, 60 / p.second.size())); }
    for (auto &x : srcs) all.push_back(x); for (auto &x : sinks) all.push_back(x); for (auto &x : slots) all.push_back(x); for (auto &x : argSinks) all.push_back(x);
    if (r.flip()) { std::vector<ThreadPool> pools; for (size_t i = 0, n = 1 + r.below(2); i < n; i++) pools.push_back(randPool(r, &sig)); for (auto &b : all) b->setThreadPool(r.pick(pools)); }
    {
        Topology t;
        for (auto &e : edges) t.connect(e.a, e.ap, e.b, e.bp);
        for (auto &p : probes)
        {
            t.connect(p.q, p.q->outs[0]->port, p.s, "probeProbeable");
            if (probes.size() == 1) t.connect(p.s, "probeableTriggered", p.rep, "reply"); //one prober per reply stream keeps the reference exact
            else t.connect(p.s, "probeableTriggered", p.rep, "reply");
        }
        t.commit();
        const bool ok = waitUntil([&] {
            for (auto &s : srcs) for (auto &o : s->outs) { if (o->sent < o->limit) return false; for (auto &q : o->seenBy) if (q->load() < o->limit) return false; }
            for (auto &p : probes) if (p.rep->next < limit) return false;
            return true; }, 6000);
        std::ostringstream o; if (!ok) { for (auto &e : edges) o << e.a->id << "[" << e.ap << "]->" << e.b->id << "[" << e.bp << "] sent " << e.o->sent << " of " << e.o->limit << " seen " << e.rx->seen[e.o->src]->load() << "; "; for (auto &p : probes) o << "probe sent " << p.q->outs[0]->sent << " replies " << p.rep->next; }
        VF_CHECK(ok, "messages-undelivered", sig << " " << o.str());
        VF_CHECK(t.waitInactive(0.02, 60.0), "never-inactive", sig);
        t.disconnectAll(); t.commit();
    }
    for (auto &e : edges) VF_CHECK(e.rx->next[e.o->src] == e.o->sent, "final-message-count", e.a->id << "[" << e.ap << "]->" << e.b->id << ": " << e.rx->next[e.o->src] << " of " << e.o->sent);
    for (auto &p : probes) VF_CHECK(p.rep->next == p.q->outs[0]->sent, "final-reply-count", p.rep->next << " of " << p.q->outs[0]->sent);
    distinct(sig); sample(sig); count("message_topologies");
}

//! many external threads push into one port, up to the queue bound, while the block drains or is held
static void pushCase(Rng &r, uint64_t)
{
    auto sink = std::make_shared<MSink>(r.fork(), 1); sink->id = sink->ins[0].id = "pushed"; sink->thrower = r.flip();
    struct Holder : Base { std::atomic<bool> hold{false}, in{false}; Holder(Rng q) : Base(q) { setupOutput(0); } void work(void) {} };
    auto idle = std::make_shared<Holder>(r.fork());
    const size_t nt = 1 + r.below(4); const uint64_t each = 100 + r.below(500);
    for (size_t i = 0; i < nt; i++) sink->ins[0].expect(i);
    if (r.flip()) sink->setThreadPool(randPool(r));
    Topology t; t.connect(idle, 0, sink, 0);
    const bool preload = r.flip();
    uint64_t pre = 0;
    if (preload) { pre = 1 + r.below(std::min<uint64_t>(each, 900 / nt)); for (uint64_t k = 0; k < pre; k++) sink->input(0)->pushMessage(valueOf(0, k)); count("preloaded", pre); } //queued while not active
    t.commit();
    std::vector<std::thread> ts;
    for (size_t i = 0; i < nt; i++) ts.emplace_back([&, i] {
        Rng q(r.s + i); uint64_t k = i == 0 ? pre : 0;
        for (; k < each; k++)
        {
            //stay within the documented bound: at most 900/nt outstanding per pusher
            while (k - std::min<uint64_t>(k, sink->ins[0].seen[i]->load(std::memory_order_relaxed)) > 900 / nt) std::this_thread::sleep_for(std::chrono::microseconds(50));
            sink->input(0)->pushMessage(valueOf(i, k)); count("pushed_messages");
            if (q.chance(1, 30)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200)));
        } });
    for (auto &x : ts) x.join();
    const bool ok = waitUntil([&] { for (size_t i = 0; i < nt; i++) if (sink->ins[0].seen[i]->load() < each) return false; return true; }, 6000);
    VF_CHECK(ok, "messages-undelivered", "pushed: " << sink->pops[0].load() << " of " << nt * each);
    t.disconnectAll(); t.commit();
    VF_CHECK(sink->pops[0] == nt * each, "final-message-count", sink->pops[0].load() << " of " << nt * each);
    distinct("push" + std::to_string(nt) + "," + std::to_string(each) + "," + std::to_string(pre)); sample("push " + std::to_string(nt) + " threads x " + std::to_string(each) + ", " + std::to_string(pre) + " preloaded");
}

//! a ring of slot blocks passing one counter around, and clear()
struct Ring : Base
{
    std::atomic<uint64_t> last{0}; uint64_t limit; bool bad = false;
    Ring(Rng q, uint64_t l) : Base(q), limit(l) { registerCall(this, "pass", &Ring::pass); registerSignal("next"); registerCall(this, "kick", &Ring::kick); }
    void pass(unsigned long long v) { if (v <= last.load(std::memory_order_relaxed)) violation("ring-value-went-back", std::to_string(v)); last = v; progress(); count("ring_hops"); if (v < limit) emitSignal("next", v + 1); }
    void kick(void) { emitSignal("next", 1ull); }
    void work(void) {}
};
static void ringCase(Rng &r, uint64_t)
{
    const size_t n = 2 + r.below(4); const uint64_t limit = 100 + r.below(400); std::vector<std::shared_ptr<Ring>> b; for (size_t i = 0; i < n; i++) b.push_back(std::make_shared<Ring>(r.fork(), limit));
    std::string sig = "ring" + std::to_string(n); if (r.flip()) { auto p = randPool(r, &sig); for (auto &x : b) x->setThreadPool(p); }
    Topology t; for (size_t i = 0; i < n; i++) t.connect(b[i], "next", b[(i + 1) % n], "pass");
    t.commit(); b[0]->call("kick");
    VF_CHECK(waitUntil([&] { for (auto &x : b) if (x->last >= limit) return true; return false; }, 6000), "messages-undelivered", sig);
    VF_CHECK(t.waitInactive(0.02, 60.0), "never-inactive", sig);
    uint64_t mx = 0; for (auto &x : b) mx = std::max<uint64_t>(mx, x->last); VF_CHECK(mx == limit, "ring-final", mx << " of " << limit);
    for (size_t i = 0; i < n; i++) { const uint64_t want = limit >= i + 0 ? 0 : 0; (void)want; }
    distinct(sig + std::to_string(limit)); count("rings");
}

int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"graph", graphCase}, {"push", pushCase}, {"ring", ringCase}}); }
