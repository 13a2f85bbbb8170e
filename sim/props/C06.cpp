// C06: the compact rewritable arrays return the last written value through growth and memory exhaustion.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/CDRWArray.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
struct Cell { u64 a = 0, b = 0; bool two = false; bool any = false; };   // the value, or one of two after a failed write; any: re-exposed by growth after a shrink
struct Obj { std::unique_ptr<CDRWArray> arr; std::unique_ptr<CDRWVector> vec; std::vector<Cell> c; std::vector<Cell> behind; bool lost = false; bool on() const { return arr || vec; } };
Obj obj[2];
u64 g_span = 700;      // sizes stay below this
u64 get(const Obj& o, u64 i) { const CDRWArray* a = o.arr.get(); const CDRWVector* v = o.vec.get(); return a ? a->get(i) : v->get(i); }
void check_at(Obj& o, u64 i, const char* when) {
    if (i >= o.c.size()) return;
    u64 g = value("get", [&] { return get(o, i); });
    if (o.c[i].any) { o.c[i] = Cell{g, 0, false, false}; return; }   // from now on it has to stay
    if (g == o.c[i].a || (o.c[i].two && g == o.c[i].b)) return;
    fail("wrong-answer", std::string(when) + ": element " + S(i) + " of " + S(o.c.size()) + " reads " + S(g) + ", last written " + S(o.c[i].a) + (o.c[i].two ? " or " + S(o.c[i].b) : ""));
}
void check_all(Obj& o, const char* when) {
    if (!o.on() || o.lost) return;
    EQ("size", value("size", [&] { return o.arr ? (u64)o.arr->size() : (u64)o.vec->size(); }), o.c.size(), when);
    u64 step = 1 + o.c.size() / (g_span > 700 ? 5000 : 400);
    for (u64 i = 0; i < o.c.size(); i += step) check_at(o, i, when);
}
u64 val(i64 x) { Rng r((u64)x + 11); switch (r.below(6)) { case 0: return 0; case 1: return 1ull << r.below(64); case 2: { unsigned b = 1 + (unsigned)r.below(64); return b == 64 ? ~0ull : (1ull << b) - 1; } case 3: return r.below(4); default: return r.width_value(64); } }
void resize_model(Obj& o, u64 n) {
    auto& b = o.behind;
    if (n < o.c.size()) { if (b.size() < o.c.size()) b.resize(o.c.size()); for (u64 i = n; i < o.c.size(); i++) b[i] = o.c[i]; o.c.resize(n); return; }
    while (o.c.size() < n) { u64 i = o.c.size(); Cell c; c.any = i < b.size(); o.c.push_back(c); }
}
// more bits than 32-bit numbers reach
void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); u64 n = (u64)op.arg(2) / 7 + q.below(2000) + 300; std::map<u64, u64> m; std::vector<u64> pos; Obj o;
    must("construction", [&] { if (op.arg(1) & 1) { o.vec.reset(new CDRWVector()); o.vec->reserve(n + 100); o.vec->resize(n); } else o.arr.reset(new CDRWArray(n)); });
    for (u64 e = 5; e < 33; e++) for (i64 d = -2; d <= 2; d++) { u64 i = (1ull << e) + (u64)d; if (i < n) pos.push_back(i); i = ((1ull << e) / 7) + (u64)d; if (i < n) pos.push_back(i); }
    for (int i = 0; i < 60; i++) pos.push_back(q.below(n));
    for (u64 d = 1; d < 4; d++) pos.push_back(n - d);
    for (int i = 0; i < 500; i++) { u64 k = q.pick(pos), v = val((i64)q.below(1u << 30)); must("set", [&] { if (o.arr) o.arr->set(k, v); else o.vec->set(k, v); }); m[k] = v; u64 j = q.pick(pos); EQ("element", value("get", [&] { return get(o, j); }), m.count(j) ? m[j] : 0, "position " + S(j) + " of " + S(n)); }
    if (o.vec) for (int i = 0; i < 60; i++) { u64 v = val((i64)q.below(1u << 30)); must("push_back", [&] { o.vec->push_back(v); }); m[n] = v; pos.push_back(n++); }
    EQ("size", value("size", [&] { return o.arr ? (u64)o.arr->size() : (u64)o.vec->size(); }), n);
    for (u64 k : pos) for (u64 i = k ? k - 1 : 0; i <= k + 1 && i < n; i++) EQ("element", value("get", [&] { return get(o, i); }), m.count(i) ? m[i] : 0, "position " + S(i) + " of " + S(n));
    probe("beyond_32_bits"); must("destruction", [&] { o = Obj(); });
}
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 200000; large_run(); } else g_span = 700;
    if (r.plan.get("many")) large_run();
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1]; Obj& d = obj[1 - (op.arg(0) & 1)];
        if (op.name == "huge") { huge(op); return; }
        if (op.name == "new") {
            o.arr.reset(); o.vec.reset(); o.c.clear(); o.behind.clear(); o.lost = false; u64 n = (u64)op.arg(2) % g_span; i64 how = op.arg(1) % 4; u64 seed = (u64)op.arg(3);
            auto v = ints_of(n, (i64)(seed % 10), seed);
            r.arm(op);
            Out out = sut([&] { if (how == 0) o.arr.reset(new CDRWArray(n)); else if (how == 1) o.arr.reset(new CDRWArray(v.begin(), v.end())); else if (how == 2) o.vec.reset(new CDRWVector()); else o.vec.reset(new CDRWVector(n)); });
            bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "construction threw: " + last_out().what);
            if (out != Out::ok) { o.arr.reset(); o.vec.reset(); return; }
            if (how == 1) for (u64 x : v) { Cell c; c.a = x; o.c.push_back(c); } else if (how != 2) o.c.resize(n);
            check_all(o, "after construction"); return;
        }
        if (!o.on() || o.lost) return;
        u64 n = o.c.size(), x = (u64)op.arg(1);
        if (op.name == "set" || op.name == "push" || op.name == "pop" || op.name == "resize" || op.name == "reserve" || op.name == "shrink" || op.name == "clear") {
            u64 v = val(op.arg(2)); u64 i = n ? x % n : 0; u64 m = x % g_span;
            if (op.name == "set" ? n == 0 : !o.vec) return;
            u64 cap0 = o.vec ? value("capacity", [&] { return (u64)o.vec->capacity(); }) : 0;
            r.arm(op);
            Out out = sut([&] {
                if (op.name == "set") { if (o.arr) o.arr->set(i, v); else o.vec->set(i, v); }
                else if (op.name == "push") o.vec->push_back(v);
                else if (op.name == "pop") o.vec->pop_back();
                else if (op.name == "resize") o.vec->resize(m);
                else if (op.name == "reserve") o.vec->reserve(m);
                else if (op.name == "shrink") o.vec->shrink_to_fit();
                else o.vec->clear();
            });
            bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) {
                if (op.name == "set") { o.c[i] = Cell{v, 0, false}; check_at(o, i, "after set"); if (i) check_at(o, i - 1, "neighbour"); return; }
                if (op.name == "push") { Cell c; c.a = v; o.c.push_back(c); }
                else if (op.name == "pop") { if (n) resize_model(o, n - 1); }
                else if (op.name == "resize") resize_model(o, m);
                else if (op.name == "clear") resize_model(o, 0);
                if (o.vec && value("capacity", [&] { return (u64)o.vec->capacity(); }) != cap0) { probe("reallocated"); check_all(o, ("after " + op.name).c_str()); }
                else { EQ("size", value("size", [&] { return (u64)o.vec->size(); }), o.c.size(), "after " + op.name); if (!o.c.empty()) check_at(o, o.c.size() - 1, ("last element after " + op.name).c_str()); EQ("empty", value("empty", [&] { return (u64)o.vec->empty(); }), o.c.empty()); }
            } else {
                CHECK(f && out == Out::bad_alloc, "unexpected-exception", op.name + " threw " + out_name(out) + " " + last_out().what);
                probe("operation_failed");
                if (op.name == "set") { Cell& c = o.c[i]; if (c.any) {} else if (c.two) { u64 g = value("get", [&] { return get(o, i); }); if (g != c.a && g != c.b && g != v) fail("wrong-answer", "after a failed set: element " + S(i) + " reads " + S(g) + ", not its old or new value"); c = Cell{g, 0, false}; } else { c.two = true; c.b = v; } }
                if (op.name == "push") { if (o.behind.size() <= n) o.behind.resize(n + 1); }
                check_all(o, ("after a failed " + op.name).c_str());
                if (op.name == "set") { o.c[i].a = value("get", [&] { return get(o, i); }); o.c[i].two = o.c[i].any = false; }
            }
        } else if (op.name == "churn") { // thousands of writes, appends and removals around one size
            Rng q((u64)op.arg(2)); u64 hot = 1 + q.below(30); i64 vals[4]; for (auto& v : vals) v = (i64)q.below(1u << 30); bool some = q.chance(1, 2);
            for (u64 k = (u64)op.arg(1); k > 0; k--) {
                u64 m = o.c.size(), how = q.below(6), v = val(some ? vals[q.below(4)] : (i64)q.below(1u << 30));
                if (o.vec && how == 0 && m < n + 40) { must("push_back", [&] { o.vec->push_back(v); }); Cell c; c.a = v; o.c.push_back(c); }
                else if (o.vec && how == 1 && m && m + 40 > n) { must("pop_back", [&] { o.vec->pop_back(); }); resize_model(o, m - 1); }
                else if (m) { u64 i = q.below(std::min(hot, m)); if (q.chance(1, 20)) i = q.below(m); must("set", [&] { if (o.arr) o.arr->set(i, v); else o.vec->set(i, v); }); o.c[i] = Cell{v, 0, false}; }
                if (!o.c.empty()) check_at(o, q.below(o.c.size()), "many operations");
            }
            check_all(o, "after thousands of operations"); probe("thousands_of_operations");
        } else if (op.name == "get") { if (n) check_at(o, x % n, "read"); }
        else if (op.name == "copy") {
            int how = (int)(op.arg(2) % 4); bool same = (bool)o.arr == (bool)d.arr && (bool)o.vec == (bool)d.vec; if (!same) how &= 2;
            std::unique_ptr<CDRWArray> a; std::unique_ptr<CDRWVector> v;
            r.arm(op);
            Out out = sut([&] {
                if (o.arr) { if (how == 0) a.reset(new CDRWArray(*o.arr)); else if (how == 1) *d.arr = *o.arr; else if (how == 2) a.reset(new CDRWArray(std::move(*o.arr))); else *d.arr = std::move(*o.arr); }
                else { if (how == 0) v.reset(new CDRWVector(*o.vec)); else if (how == 1) *d.vec = *o.vec; else if (how == 2) v.reset(new CDRWVector(std::move(*o.vec))); else *d.vec = std::move(*o.vec); }
            });
            bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "copy threw"); if (how == 1 || how == 3) d.lost = true; if (how >= 2) o.lost = true; else check_all(o, "source of a failed copy"); return; }
            if (how == 0 || how == 2) { d.arr = std::move(a); d.vec = std::move(v); }
            d.c = o.c; d.behind = o.behind; d.lost = false;
            if (how >= 2) { o.arr.reset(); o.vec.reset(); o.c.clear(); o.behind.clear(); } else check_all(o, "source of a copy");
            check_all(d, "after copy or move");
        } else if (op.name == "all") { check_all(o, "full comparison"); check_all(d, "other array"); }
    });
    for (auto& o : obj) check_all(o, "at the end");
    for (auto& o : obj) { o.arr.reset(); o.vec.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 2000)) { p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), r.range(0, 1), 1ll << (r.chance(1, 4) ? 31 : 32)}); p.random_sched(r, false); return; }
    bool fixed = r.chance(1, 3);
    if (r.chance(1, 60)) { // far beyond 64 K elements
        p.cfg["large"] = 1; auto size = [&] { return (i64)(r.chance(1, 3) ? 65536 + r.range(-40, 40) : 20000 + (i64)r.below(100000)); };
        p.add(-1, "new", {0, fixed ? r.range(0, 1) : 3, size(), (i64)r.below(1u << 30)});
        for (int i = 4 + (int)r.below(30); i > 0; i--) {
            u64 k = r.below(10); i64 v = (i64)r.below(1u << 30);
            if (k < 7 || fixed) p.add(-1, "set", {0, (i64)r.below(1 << 20), v}); else if (k == 7) p.add(-1, "push", {0, 0, v}); else p.add(-1, k == 8 ? "resize" : "reserve", {0, size()});
            if (r.chance(1, 6)) p.fault(p.ops.back().id, "alloc", r.range(1, 400), 0);
        }
        p.add(-1, "copy", {0, 0, r.range(0, 3)}); p.random_sched(r, false); return;
    }
    p.add(-1, "new", {0, fixed ? r.range(0, 1) : r.range(2, 3), (i64)(r.chance(1, 2) ? r.size(12) : r.size(r.chance(1, 4) ? 500 : 90)), (i64)r.below(1u << 30)});
    u64 n = 3 + r.below(r.chance(1, 4) ? (tier ? 500 : 200) : 50); bool two = r.chance(1, 5);
    int wset = (int)r.below(8), wpush = 1 + (int)r.below(6), wpop = (int)r.below(4), rest = 1 + (int)r.below(2);
    if (fixed) wset += 4;
    if (r.chance(1, 60)) { if (r.chance(1, 20)) p.cfg["many"] = 1; p.add(-1, "churn", {0, p.get("many") ? 66000 + (i64)r.below(9000) : r.chance(1, 2) ? 250 + (i64)r.below(400) : 1000 + (i64)r.below(3000), (i64)r.below(1u << 30)}); }
    u64 hot = 1 + r.below(20); i64 vals[6]; for (auto& v : vals) v = (i64)r.below(1u << 30);
    for (u64 i = 0; i < n; i++) {
        int s = two ? (int)r.below(2) : 0; u64 x = r.below((u64)(wset + wpush + wpop + rest));
        i64 v = r.chance(1, 2) ? vals[r.below(6)] : (i64)r.below(1u << 30);
        if (r.chance(1, 30)) { p.add(-1, "copy", {s, 0, r.range(0, 3)}); two = true; }
        else if (r.chance(1, 40)) p.add(-1, "all", {s});
        else if (r.chance(1, 100)) p.add(-1, "new", {s, fixed ? r.range(0, 1) : r.range(2, 3), (i64)r.size(60), (i64)r.below(1u << 30)});
        else if ((int)x < wset) p.add(-1, "set", {s, (i64)(r.chance(1, 2) ? r.below(hot) : r.below(1 << 16)), v});
        else if ((int)x < wset + wpush) p.add(-1, fixed ? "set" : "push", {s, (i64)r.below(1 << 16), v});
        else if ((int)x < wset + wpush + wpop) p.add(-1, fixed ? "get" : "pop", {s, (i64)r.below(1 << 16)});
        else { i64 k = r.range(0, 9); p.add(-1, k < 3 ? "resize" : k < 5 ? "reserve" : k == 5 ? "shrink" : k == 6 ? "clear" : "get", {s, (i64)r.size(r.chance(1, 5) ? 300 : 40)}); }
    }
    if (r.chance(3, 4)) for (u64 k = 1 + r.below(6); k > 0; k--) p.fault(r.pick(p.ops).id, r.chance(2, 3) ? "allocw" : "alloc", r.chance(2, 3) ? r.range(1, 6) : r.range(1, 300), r.chance(1, 3));
    if (r.chance(1, 3)) { u64 a = r.below(p.ops.size()); for (u64 i = a; i < p.ops.size() && i < a + 30; i++) p.fault(p.ops[i].id, "alloc", r.chance(1, 2) ? r.range(1, 6) : r.range(1, 400), 0); }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C06", gen, run};
