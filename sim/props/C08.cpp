// C08: the heap yields its extreme element and conserves its contents, also when a push runs out of memory.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/Heap.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
struct Obj { std::unique_ptr<MinHeap> lo; std::unique_ptr<MaxHeap> hi; std::multiset<u64> m; bool lost = false; bool on() const { return lo || hi; } };
Obj obj[2];
u64 g_span = 1000;
u64 best(const Obj& o) { return o.lo ? *o.m.begin() : *o.m.rbegin(); }
u64 front(const Obj& o) { return o.lo ? o.lo->front() : o.hi->front(); }
void check_top(Obj& o, const char* when) {
    if (!o.on() || o.lost) return;
    EQ("size", value("size", [&] { return o.lo ? (u64)o.lo->size() : (u64)o.hi->size(); }), o.m.size(), when);
    if (!o.m.empty()) EQ("front", value("front", [&] { return front(o); }), best(o), when);
}
void check_all(Obj& o, const char* when) {     // the multiset held, through the positional accessor
    if (!o.on() || o.lost) return; check_top(o, when);
    std::multiset<u64> got; for (size_t i = 1; i <= o.m.size(); i++) got.insert(value("value", [&] { return o.lo ? (u64)o.lo->value(i) : (u64)o.hi->value(i); }));
    if (got != o.m) fail("wrong-answer", std::string(when) + ": the heap holds other elements than were pushed and not popped");
}
void drain(Obj& o, u64 k, const char* when) { while (k-- && !o.m.empty()) { check_top(o, when); u64 t = best(o); must("pop", [&] { if (o.lo) o.lo->pop(); else o.hi->pop(); }); o.m.erase(o.m.find(t)); } check_top(o, when); }
template <class H> H* make(const std::vector<u64>& v, i64 how) {
    switch (how % 5) {
    case 0: return new H();
    case 1: return new H(v);
    case 2: return new H(v.begin(), v.end());
    case 3: return new H(v.data(), v.data() + v.size());
    default: { std::vector<uint8_t> w(v.begin(), v.end()); return new H(w); }
    }
}
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 300000; large_run(); } else g_span = 1000;
    if (r.plan.get("many")) large_run();
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1]; Obj& d = obj[1 - (op.arg(0) & 1)];
        if (op.name == "new") {
            o.lo.reset(); o.hi.reset(); o.m.clear(); o.lost = false; i64 how = op.arg(4);
            auto v = ints_of((u64)op.arg(2) % g_span, op.arg(3), (u64)op.arg(3), how % 3 ? 64 : 3); if (how % 5 == 4) for (auto& x : v) x &= 255;
            r.arm(op); Out out = sut([&] { if (op.arg(1) & 1) o.lo.reset(make<MinHeap>(v, how)); else o.hi.reset(make<MaxHeap>(v, how)); }); bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "construction threw"); return; }
            if (how % 5) o.m.insert(v.begin(), v.end()); check_all(o, "after construction"); return;
        }
        if (!o.on() || o.lost) return;
        if (op.name == "push") {
            u64 v = op.arg(2) % 4 == 0 ? (u64)op.arg(1) % 5 : op.arg(2) % 4 == 1 ? ~(u64)op.arg(1) % 7 : (u64)op.arg(1) * 0x9e3779b97f4a7c15ull;
            r.arm(op); Out out = sut([&] { if (o.lo) o.lo->push(v); else o.hi->push(v); }); bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) { o.m.insert(v); check_top(o, "after push"); } else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "push threw"); probe("push_failed"); check_all(o, "after a failed push"); }
        } else if (op.name == "churn") {   // thousands of pushes and pops around one size
            Rng q((u64)op.arg(2)); u64 n0 = o.m.size(), lim = q.one_of<u64>({3, 50, ~0ull}), last = 0;
            for (u64 k = (u64)op.arg(1); k > 0; k--) {
                u64 n = o.m.size();
                if (n == 0 || (n < n0 + 30 && q.chance(1, 2))) { u64 v = q.chance(1, 3) ? last + q.below(4) : lim == ~0ull ? q.next() : q.below(lim); must("push", [&] { if (o.lo) o.lo->push(v); else o.hi->push(v); }); o.m.insert(v); check_top(o, "many operations"); }
                else { last = best(o); drain(o, 1, "many operations"); }
            }
            check_all(o, "after thousands of operations"); probe("thousands_of_operations");
        } else if (op.name == "pop") {
            if (o.m.empty()) return; check_top(o, "pop"); u64 t = best(o); r.arm(op); Out out = sut([&] { if (o.lo) o.lo->pop(); else o.hi->pop(); }); bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) { o.m.erase(o.m.find(t)); check_top(o, "pop"); } else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "pop threw " + last_out().what); check_all(o, "after a failed pop"); }
        } else if (op.name == "replace") {   // the top replaced by another element, which then sinks to its place
            if (o.m.empty()) return; u64 nv = Rng((u64)op.arg(1)).width_value(64), t = best(o); must("Heapify", [&] { if (o.lo) { o.lo->value_reference(o.lo->root()) = nv; o.lo->Heapify(o.lo->root()); } else { o.hi->value_reference(o.hi->root()) = nv; o.hi->Heapify(o.hi->root()); } });
            o.m.erase(o.m.find(t)); o.m.insert(nv); check_top(o, "after the top was replaced");
        }
        else if (op.name == "drain") drain(o, (u64)op.arg(1) % (g_span * 2 / 5), "successive pops");
        else if (op.name == "rebuild") {   // elements rewritten in place, then the order restored
            if (o.m.empty()) return; Rng q((u64)op.arg(1)); u64 k = 1 + q.below(4);
            while (k--) { size_t i = 1 + q.below(o.m.size()); u64 nv = q.width_value(64), old = value("value", [&] { return o.lo ? (u64)o.lo->value(i) : (u64)o.hi->value(i); }); must("value_reference", [&] { if (o.lo) o.lo->value_reference(i) = nv; else o.hi->value_reference(i) = nv; }); auto it = o.m.find(old); CHECK(it != o.m.end(), "wrong-answer", "the heap holds an element never pushed"); o.m.erase(it); o.m.insert(nv); }
            must("Build", [&] { if (o.lo) o.lo->Build(); else o.hi->Build(); }); check_all(o, "after Build");
        } else if (op.name == "copy") {
            int how = (int)(op.arg(2) % 4); if ((bool)o.lo != (bool)d.lo || !d.on()) how &= 2; std::unique_ptr<MinHeap> a; std::unique_ptr<MaxHeap> b; r.arm(op);
            Out out = sut([&] { if (o.lo) { if (how == 0) a.reset(new MinHeap(*o.lo)); else if (how == 1) *d.lo = *o.lo; else if (how == 2) a.reset(new MinHeap(std::move(*o.lo))); else *d.lo = std::move(*o.lo); } else { if (how == 0) b.reset(new MaxHeap(*o.hi)); else if (how == 1) *d.hi = *o.hi; else if (how == 2) b.reset(new MaxHeap(std::move(*o.hi))); else *d.hi = std::move(*o.hi); } });
            bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "copy threw"); if (how & 1) d.lost = true; if (how >= 2) o.lost = true; else check_all(o, "source of a failed copy"); return; }
            if (!(how & 1)) { d.lo = std::move(a); d.hi = std::move(b); }
            d.m = o.m; d.lost = false; if (how >= 2) { o.lo.reset(); o.hi.reset(); o.m.clear(); } else check_all(o, "source of a copy");
            check_all(d, "after copy or move");
        }
    });
    for (auto& o : obj) { check_all(o, "at the end"); if (o.on() && !o.lost) drain(o, ~0ull, "final pops"); }
    for (auto& o : obj) { o.lo.reset(); o.hi.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 200)) { // far beyond 64 K elements
        p.cfg["large"] = 1; p.add(-1, "new", {0, r.range(0, 1), (i64)(r.chance(1, 4) ? 65536 + r.range(-9, 9) : r.chance(1, 3) ? 131000 + (i64)r.below(150000) : 20000 + (i64)r.below(110000)), (i64)r.below(1u << 30), r.range(0, 14)});
        for (u64 n = 4 + r.below(40); n > 0; n--) {
            u64 x = r.below(12);
            if (x < 7) p.add(-1, "push", {0, (i64)r.below(1u << 30), r.range(0, 3)}); else if (x < 9) p.add(-1, "pop", {0}); else if (x == 9) p.add(-1, "rebuild", {0, (i64)r.below(1u << 30)}); else if (x == 10) p.add(-1, "drain", {0, (i64)r.below(20000)}); else p.add(-1, "copy", {0, 0, r.chance(1, 2) ? 0 : 1});
            if (r.chance(1, 4)) p.fault(p.ops.back().id, "alloc", 1, r.chance(1, 2));
        }
        p.random_sched(r, false); return;
    }
    p.add(-1, "new", {0, r.range(0, 1), (i64)r.size(r.chance(1, 3) ? 900 : 60), (i64)r.below(1u << 30), r.range(0, 14)});
    if (r.chance(1, 60)) { if (r.chance(1, 20)) p.cfg["many"] = 1; p.add(-1, "churn", {0, p.get("many") ? 66000 + (i64)r.below(9000) : r.chance(1, 2) ? 250 + (i64)r.below(400) : 1000 + (i64)r.below(3000), (i64)r.below(1u << 30)}); }
    u64 n = 2 + r.below(r.chance(1, 5) ? (tier ? 800 : 300) : 50); bool two = r.chance(1, 5); int wp = 1 + (int)r.below(6), wq = 1 + (int)r.below(6); i64 style = r.range(0, 5);
    for (u64 i = 0; i < n; i++) {
        int s = two ? (int)r.below(2) : 0; i64 v = style == 0 ? (i64)i : style == 1 ? (i64)(n - i) : (i64)r.below(1u << 30), k = style < 2 ? 2 : style == 2 ? 0 : r.range(0, 3);
        if (r.chance(1, 40)) { p.add(-1, "copy", {s, 0, r.range(0, 3)}); two = true; }
        else if (r.chance(1, 30)) p.add(-1, "drain", {s, (i64)r.size(300)});
        else if (r.chance(1, 30)) p.add(-1, "rebuild", {s, (i64)r.below(1u << 30)});
        else if (r.chance(1, 30)) p.add(-1, "replace", {s, (i64)r.below(1u << 30)});
        else if (r.chance(1, 80)) p.add(-1, "new", {s, r.range(0, 1), (i64)r.size(200), (i64)r.below(1u << 30), r.range(0, 14)});
        else if (r.below((u64)(wp + wq)) < (u64)wp) p.add(-1, "push", {s, v, k});
        else p.add(-1, "pop", {s});
    }
    if (r.chance(4, 5)) for (u64 k = 1 + r.below(5); k > 0; k--) p.fault(r.pick(p.ops).id, "allocw", r.range(1, 3), r.chance(1, 3));
    if (r.chance(1, 3)) { u64 a = r.below(p.ops.size()); for (u64 i = a; i < p.ops.size() && i < a + 40; i++) p.fault(p.ops[i].id, "alloc", 1, 0); }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C08", gen, run};
