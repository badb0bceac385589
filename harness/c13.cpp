// C13: objects own their value
#include "vfp.hpp"
#include <memory>
using namespace vf; using namespace Pothos;

//! every constructed payload is a row here: constructed once, destroyed once
struct Ledger
{
    std::mutex m; uint64_t nextId = 1; std::map<const void *, uint64_t> liveAt; std::set<uint64_t> alive; uint64_t made = 0, gone = 0, copies = 0;
    uint64_t born(const void *p, bool copy) { std::lock_guard<std::mutex> l(m); if (liveAt.count(p)) violation("constructed-over-a-live-value", ""); const uint64_t id = nextId++; liveAt[p] = id; alive.insert(id); made++; if (copy) copies++; return id; }
    void died(const void *p, uint64_t id) { std::lock_guard<std::mutex> l(m); auto it = liveAt.find(p); if (it == liveAt.end() || it->second != id) { violation("destroyed-twice", "value " + std::to_string(id)); return; } liveAt.erase(it); alive.erase(id); gone++; }
    size_t nAlive(void) { std::lock_guard<std::mutex> l(m); return alive.size(); }
    uint64_t nCopies(void) { std::lock_guard<std::mutex> l(m); return copies; }
};
static Ledger led;
template <int K> struct Val //K makes distinct held types
{
    uint64_t id; uint64_t tag; unsigned char pad[K * 37 + 1];
    explicit Val(uint64_t t) : id(led.born(this, false)), tag(t) { memset(pad, int(t), sizeof pad); }
    Val(const Val &o) : id(led.born(this, true)), tag(o.tag) { memcpy(pad, o.pad, sizeof pad); }
    Val(Val &&o) : id(led.born(this, true)), tag(o.tag) { memcpy(pad, o.pad, sizeof pad); }
    ~Val(void) { led.died(this, id); memset(pad, 0xDD, sizeof pad); }
    bool good(void) const { for (auto c : pad) if (c != (unsigned char)tag) return false; return true; }
};
struct Holder //holds objects, so that dropping one can drop others
{
    uint64_t id; uint64_t tag; ObjectVector kids;
    explicit Holder(uint64_t t) : id(led.born(this, false)), tag(t) {}
    Holder(const Holder &o) : id(led.born(this, true)), tag(o.tag), kids(o.kids) {}
    ~Holder(void) { led.died(this, id); }
};
struct Thrower { static bool arm; uint64_t id; Thrower(void) : id(0) { if (arm) throw std::runtime_error("ctor"); id = led.born(this, false); } Thrower(const Thrower &) : id(0) { if (arm) throw std::runtime_error("copy"); id = led.born(this, true); } ~Thrower(void) { led.died(this, id); } };
bool Thrower::arm = false;

//! model: value number -> what it is and what it refers to
struct MV { int kind; uint64_t tag; std::vector<int> kids; const void *addr; bool isRef; };
struct Model
{
    std::vector<MV> vals; std::vector<int> slots; //slot -> value or -1
    std::map<int, unsigned> refs(void) const
    {
        std::map<int, unsigned> n; std::vector<int> todo;
        for (int v : slots) if (v >= 0 && n[v]++ == 0) todo.push_back(v);
        while (!todo.empty()) { int v = todo.back(); todo.pop_back(); for (int k : vals[v].kids) if (k >= 0 && n[k]++ == 0) todo.push_back(k); }
        return n;
    }
};

static const void *addrOf(const Object &o, int kind)
{
    switch (kind) { case 0: return &o.extract<Val<0>>(); case 1: return &o.extract<Val<1>>(); case 2: return &o.extract<Val<7>>(); case 3: return &o.extract<Holder>(); case 4: return &o.extract<std::string>(); case 5: return &o.extract<Object>(); case 6: return &o.extract<ObjectKwargs>(); case 7: return &o.extract<ObjectVector>(); case 8: return &o.extract<int>(); default: return &o.extract<std::shared_ptr<Val<1>>>(); }
}
static const std::type_info &typeOf(int kind)
{
    switch (kind) { case 0: return typeid(Val<0>); case 1: return typeid(Val<1>); case 2: return typeid(Val<7>); case 3: return typeid(Holder); case 4: return typeid(std::string); case 5: return typeid(Object); case 6: return typeid(ObjectKwargs); case 7: return typeid(ObjectVector); case 8: return typeid(int); default: return typeid(std::shared_ptr<Val<1>>); }
}
enum { NK = 10 };
template <typename T> static bool refWorks(Object &o) { try { o.ref<T>(); return true; } catch (const ObjectConvertError &) { return false; } }
static bool refKind(Object &o, int kind)
{
    switch (kind) { case 0: return refWorks<Val<0>>(o); case 1: return refWorks<Val<1>>(o); case 2: return refWorks<Val<7>>(o); case 3: return refWorks<Holder>(o); case 4: return refWorks<std::string>(o); case 5: return refWorks<Object>(o); case 6: return refWorks<ObjectKwargs>(o); case 7: return refWorks<ObjectVector>(o); case 8: return refWorks<int>(o); default: return refWorks<std::shared_ptr<Val<1>>>(o); }
}
static size_t ledgerCount(const MV &v) { return v.isRef ? 0 : v.kind <= 3 || v.kind == 9 ? 1 : 0; }

static void seqCase(Rng &r, uint64_t)
{
    const size_t base = led.nAlive(); std::string sig;
    {
    const size_t ns = 3 + r.below(6); std::vector<std::unique_ptr<Object>> s; Model m; std::vector<std::unique_ptr<int>> ints; std::vector<std::unique_ptr<Val<1>>> own;
    for (size_t i = 0; i < ns; i++) { s.emplace_back(new Object()); m.slots.push_back(-1); }
    auto verify = [&](const char *op)
    {
        const auto n = m.refs(); size_t alive = own.size(); for (auto &p : n) if (p.second) alive += ledgerCount(m.vals[p.first]);
        VF_CHECK(led.nAlive() - base == alive, led.nAlive() - base > alive ? "value-not-destroyed" : "value-destroyed-early", "after " << op << ": " << led.nAlive() - base << " alive, " << alive << " referenced; " << sig);
        for (size_t i = 0; i < ns; i++)
        {
            const int v = m.slots[i]; Object &o = *s[i];
            VF_CHECK(bool(o) == (v >= 0), "null-state", "after " << op << " slot " << i << " " << sig);
            if (v < 0) { VF_CHECK(o.type() == typeid(NullObject), "null-type", op); VF_CHECK(!o.unique(), "null-unique", op); if (r.chance(1, 8)) { try { o.extract<int>(); violation("extract-from-null", op); } catch (const ObjectConvertError &) { count("refused_extracts"); } } continue; }
            if (!o) continue;
            const auto &mv = m.vals[v];
            VF_CHECK(o.type() == typeOf(mv.kind), "held-type", "after " << op << " " << o.getTypeString()); if (o.type() != typeOf(mv.kind)) continue;
            VF_CHECK(addrOf(o, mv.kind) == mv.addr, "identity", "value moved after " << op << " " << sig);
            VF_CHECK(o.unique() == (n.at(v) == 1), "unique", "after " << op << ": unique " << o.unique() << ", " << n.at(v) << " references; " << sig);
            if (mv.kind == 0) { auto &x = o.extract<Val<0>>(); VF_CHECK(x.tag == mv.tag && x.good(), "value-changed", op); }
            if (mv.kind == 1) { auto &x = o.extract<Val<1>>(); VF_CHECK(x.tag == mv.tag && x.good(), "value-changed", op); }
            if (mv.kind == 2) { auto &x = o.extract<Val<7>>(); VF_CHECK(x.tag == mv.tag && x.good(), "value-changed", op); }
            if (mv.kind == 4) VF_CHECK(o.extract<std::string>() == std::to_string(mv.tag), "value-changed", op);
            if (mv.kind == 8) VF_CHECK(o.extract<int>() == int(mv.tag), "value-changed", op);
            for (size_t k = 0; k < i; k++) { const bool eq = *s[k] == o; VF_CHECK(eq == (m.slots[k] == v), "identity-comparison", "slots " << k << "," << i << " after " << op); VF_CHECK((*s[k] != o) == !eq, "identity-comparison", "!="); }
            if (r.chance(1, 3))
            {
                const int wrong = int((mv.kind + 1 + r.below(NK - 1)) % NK); const auto copies = led.nCopies();
                try { addrOf(o, wrong); violation("extract-of-wrong-type", o.getTypeString()); } catch (const ObjectConvertError &) { count("refused_extracts"); }
                VF_CHECK(led.nCopies() == copies, "refused-extract-copied", op);
                VF_CHECK(!refKind(o, wrong), "ref-of-wrong-type", o.getTypeString());
            }
            if (r.chance(1, 3)) { const bool can = refKind(o, mv.kind); VF_CHECK(can == (n.at(v) == 1), can ? "mutable-access-to-shared-value" : "mutable-access-refused", "after " << op << " with " << n.at(v) << " references"); count(can ? "sole_owner_refs" : "shared_refs_refused"); }
        }
        count("states_checked");
    };
    const unsigned steps = unsigned(r.range(20, 120));
    for (unsigned k = 0; k < steps; k++)
    {
        const size_t i = r.below(ns), j = r.below(ns); const unsigned what = r.below(15); const auto copies = led.nCopies(); uint64_t allowed = 0; const char *op = "";
        switch (what)
        {
        case 0: case 1: case 2: //new value
        {
            op = "make"; MV v; v.kind = int(r.below(NK)); v.tag = r.below(250); v.addr = nullptr; v.isRef = false;
            switch (v.kind)
            {
            case 0: if (r.flip()) *s[i] = Object::emplace<Val<0>>(v.tag); else { Val<0> x(v.tag); allowed = 1; *s[i] = r.flip() ? Object(x) : Object(std::move(x)); } break;
            case 1: if (r.chance(1, 3)) { own.emplace_back(new Val<1>(v.tag)); v.isRef = true; *s[i] = Object(std::ref(*own.back())); } else if (r.flip()) *s[i] = Object(Object::Emplace<Val<1>>(), v.tag); else { const Val<1> x(v.tag); allowed = 1; *s[i] = Object::make(x); } break;
            case 2: { Val<7> x(v.tag); allowed = 1; Object o(x); *s[i] = std::move(o); break; }
            case 3: { Holder h(v.tag); for (size_t q = r.below(4); q > 0; q--) { const size_t a = r.below(ns); h.kids.push_back(*s[a]); v.kids.push_back(m.slots[a]); } allowed = 1; *s[i] = Object(h); break; }
            case 4: *s[i] = r.flip() ? Object(std::to_string(v.tag)) : Object(std::to_string(v.tag).c_str()); break;
            case 5: v.kids.push_back(m.slots[j]); *s[i] = Object::make(*s[j]); break; //an object in an object
            case 6: { ObjectKwargs q; for (size_t z = r.below(4); z > 0; z--) { const size_t a = r.below(ns); q["k" + std::to_string(z)] = *s[a]; v.kids.push_back(m.slots[a]); } *s[i] = Object(q); break; }
            case 7: { ObjectVector q; for (size_t z = r.below(5); z > 0; z--) { const size_t a = r.below(ns); q.push_back(*s[a]); v.kids.push_back(m.slots[a]); } if (!q.empty() && r.flip()) { q.insert(q.begin() + r.below(q.size()), *s[j]); v.kids.push_back(m.slots[j]); } *s[i] = Object(std::move(q)); break; }
            case 8: ints.emplace_back(new int(int(v.tag))); if (r.flip()) { v.isRef = true; *s[i] = Object(std::ref(*ints.back())); } else *s[i] = Object(int(v.tag)); break;
            default: *s[i] = Object(std::make_shared<Val<1>>(v.tag)); break;
            }
            m.vals.push_back(v); m.slots[i] = int(m.vals.size() - 1);
            if (s[i]->type() == typeOf(v.kind)) m.vals.back().addr = addrOf(*s[i], v.kind);
            if (v.isRef) VF_CHECK(m.vals.back().addr == (v.kind == 1 ? (void *)own.back().get() : (void *)ints.back().get()), "reference-not-held", "");
            break;
        }
        case 3: case 4: op = i == j ? "self copy assignment" : "copy assignment"; *s[i] = *s[j]; m.slots[i] = m.slots[j]; if (i == j) count("self_assignments"); break;
        case 5: op = i == j ? "self move assignment" : "move assignment"; { Object &a = *s[i], &b = *s[j]; a = std::move(b); } if (i != j) { m.slots[i] = m.slots[j]; m.slots[j] = -1; } else { count("self_assignments"); m.slots[i] = *s[i] ? m.slots[i] : -1; } break; //either outcome of a self move is allowed, but nothing may leak
        case 6: op = "drop"; if (r.flip()) *s[i] = Object(); else s[i].reset(new Object()); m.slots[i] = -1; break;
        case 7: op = "copy construction"; { std::unique_ptr<Object> n(new Object(*s[j])); s[i] = std::move(n); m.slots[i] = m.slots[j]; } break;
        case 8: op = "move construction"; { std::unique_ptr<Object> n(new Object(std::move(*s[j]))); const int v = m.slots[j]; m.slots[j] = -1; s[i] = std::move(n); m.slots[i] = v; } break;
        case 9: op = "swap"; std::swap(*s[i], *s[j]); std::swap(m.slots[i], m.slots[j]); break;
        case 10: //assign an object from inside the value it replaces
        {
            op = "assign from own child"; const int v = m.slots[i]; if (v < 0 || m.vals[v].kids.empty()) break; const auto &mv = m.vals[v]; size_t q = r.below(mv.kids.size()); const Object *src = nullptr;
            if (mv.kind == 3) src = &s[i]->extract<Holder>().kids.at(q); else if (mv.kind == 5) src = &s[i]->extract<Object>(); else if (mv.kind == 7 && mv.kids.size() == s[i]->extract<ObjectVector>().size()) { src = nullptr; auto &vec = s[i]->extract<ObjectVector>(); q = r.below(vec.size()); src = &vec[q]; const void *impl = src->_impl; int hit = -1; for (int c : mv.kids) if (c >= 0 && m.vals[c].addr && src->type() == typeOf(m.vals[c].kind) && addrOf(*src, m.vals[c].kind) == m.vals[c].addr) hit = c; if (impl && hit < 0) { src = nullptr; break; } *s[i] = *src; m.slots[i] = hit; count("child_assignments"); break; } else break;
            const int c = mv.kids[q]; *s[i] = *src; m.slots[i] = c; count("child_assignments"); break;
        }
        case 11: //mutate as the sole owner; the change is seen through this object only
        {
            op = "mutate"; const int v = m.slots[i]; if (v < 0) break; auto &mv = m.vals[v]; if (m.refs()[v] != 1) break;
            if (mv.kind == 0) { auto &x = s[i]->ref<Val<0>>(); x.tag = r.below(250); memset(x.pad, int(x.tag), sizeof x.pad); mv.tag = x.tag; count("mutations"); }
            if (mv.kind == 4) { mv.tag = r.below(1000); s[i]->ref<std::string>() = std::to_string(mv.tag); count("mutations"); }
            if (mv.kind == 3 && !mv.kids.empty()) { auto &h = s[i]->ref<Holder>(); const size_t q = r.below(mv.kids.size()); h.kids.erase(h.kids.begin() + q); mv.kids.erase(mv.kids.begin() + q); count("mutations"); }
            break;
        }
        case 12: //constructor failures leak nothing and leave the target alone
            op = "throwing construction"; Thrower::arm = true;
            VF_CHECK(!caught([&] { *s[i] = Object::emplace<Thrower>(); }).empty(), "constructor-exception-lost", "");
            Thrower::arm = false; { Thrower t; Thrower::arm = true; VF_CHECK(!caught([&] { *s[i] = Object(t); }).empty(), "constructor-exception-lost", ""); Thrower::arm = false; } count("throwing_constructions"); break;
        case 13: //copies of the value go out through convert, the held one stays
            op = "convert to same type"; { const int v = m.slots[i]; if (v < 0) break; auto &mv = m.vals[v]; if (mv.kind == 0) { const Val<0> x = s[i]->convert<Val<0>>(); allowed = 2; VF_CHECK(x.tag == mv.tag && &x != mv.addr, "value-changed", op); } else if (mv.kind == 4) { const std::string x = *s[i]; VF_CHECK(x == std::to_string(mv.tag), "value-changed", op); Object y = s[i]->convert(typeid(std::string)); VF_CHECK(y == *s[i] || y.extract<std::string>() == x, "value-changed", op); } } break;
        default: //store in and take out of the containers that carry objects
            op = "containers"; { Label l("x", *s[i], 0); Label l2 = l; Packet p; p.metadata["a"] = *s[i]; p.labels.push_back(l2); Packet p2 = p; ObjectSet os; if (m.slots[i] >= 0 && m.vals[m.slots[i]].kind == 4) { os.insert(*s[i]); VF_CHECK(os.count(*s[i]) == 1, "set-lookup", ""); } *s[i] = r.flip() ? p2.metadata["a"] : p2.labels[0].data; } break;
        }
        VF_CHECK(led.nCopies() - copies <= allowed, "value-copied", op << " copied the value " << led.nCopies() - copies << " times");
        sig += char('a' + what); verify(op);
    }
    while (!s.empty()) { const size_t i = r.below(s.size()); s.erase(s.begin() + i); m.slots.erase(m.slots.begin() + i); }
    }
    VF_CHECK(led.nAlive() == base, "value-not-destroyed", led.nAlive() - base << " at the end of " << sig);
    led.alive.clear(); led.liveAt.clear(); distinct(sig); sample(sig);
}

//! shared by threads: the payload has no synchronisation of its own, only the object's
static std::atomic<uint64_t> tMade{0}, tGone{0};
struct Shared { uint64_t a, b; unsigned char pad[48]; explicit Shared(uint64_t x) : a(x), b(~x) { memset(pad, int(x), sizeof pad); tMade.fetch_add(1, std::memory_order_relaxed); } Shared(const Shared &) = delete; ~Shared(void) { if (a != ~b) violation("destroyed-twice", "torn value"); a = b = 7; memset(pad, 0, sizeof pad); tGone.fetch_add(1, std::memory_order_relaxed); } };
static void threadCase(Rng &r, uint64_t)
{
    const size_t nt = 2 + r.below(3), nv = 1 + r.below(12); const auto m0 = tMade.load(), g0 = tGone.load();
    std::vector<std::vector<Object>> start(nt); uint64_t val = 1;
    { std::vector<Object> objs; for (size_t i = 0; i < nv; i++) { if (r.chance(1, 4)) { ObjectVector v; for (int q = 0; q < 3; q++) v.push_back(Object::emplace<Shared>(val++)); objs.push_back(Object(v)); } else objs.push_back(Object::emplace<Shared>(val++)); } for (auto &t : start) { t = objs; } }
    std::atomic<int> ready{0}; std::vector<std::thread> ts; const unsigned steps = unsigned(r.range(30, 200)); std::vector<uint64_t> seeds; for (size_t i = 0; i < nt; i++) seeds.push_back(r.next());
    std::atomic<uint64_t> muts{0}, reads{0};
    for (size_t t = 0; t < nt; t++) ts.emplace_back([&, t] {
        Rng q(seeds[t]); std::vector<Object> mine = std::move(start[t]); uint64_t nm = 0, nr = 0;
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < int(nt)) {}
        for (unsigned k = 0; k < steps && !mine.empty(); k++)
        {
            const size_t i = q.below(mine.size());
            switch (q.below(6))
            {
            case 0: mine.push_back(mine[i]); break;
            case 1: mine[i] = mine[q.below(mine.size())]; break;
            case 2: { std::swap(mine[i], mine.back()); mine.pop_back(); break; }
            case 3: { Object c = mine[i]; mine[i] = std::move(c); break; }
            case 4: if (mine[i].unique()) { if (mine[i].type() == typeid(Shared)) { auto &x = mine[i].ref<Shared>(); x.a++; x.b = ~x.a; nm++; } } break;
            default: if (mine[i].type() == typeid(Shared)) { auto &x = mine[i].extract<Shared>(); if (x.a != ~x.b) violation("value-changed", "torn value"); nr++; } else if (mine[i]) { auto o = mine[i].extract<ObjectVector>().at(q.below(3)); if (q.flip()) mine.push_back(o); } break;
            }
        }
        muts.fetch_add(nm, std::memory_order_relaxed); reads.fetch_add(nr, std::memory_order_relaxed); });
    for (auto &x : ts) x.join();
    count("thread_reads", reads); count("thread_mutations", muts); count("thread_values", tMade - m0);
    VF_CHECK(tMade - m0 == tGone - g0, tMade - m0 > tGone - g0 ? "value-not-destroyed" : "destroyed-twice", tMade - m0 << " made, " << tGone - g0 << " destroyed");
    distinct("t" + std::to_string(nt) + "," + std::to_string(nv) + "," + std::to_string(steps) + "," + std::to_string(muts));
}

int main(int argc, char **argv) { initLib(); return run(argc, argv, {{"seq", seqCase}, {"threads", threadCase}}); }
