// C10: heap sort sorts any range with any order; an interrupted sort loses or invents nothing.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/sort.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
struct Rec { u64 key; u64 id; };
bool operator<(const Rec& a, const Rec& b) { return a.key < b.key; }
struct Cmp { // a caller's order, which may throw
    i64 order; i64* calls; i64 throw_at;
    static u64 rk(u64 k, i64 o) { switch (o % 6) { case 2: return k % 7; case 3: return 0; case 4: return k >> 60; case 5: return __builtin_popcountll(k); default: return k; } }
    static bool less(const Rec& a, const Rec& b, i64 o) { u64 x = rk(a.key, o), y = rk(b.key, o); return o % 6 == 1 ? x > y : x < y; }
    bool operator()(const Rec& a, const Rec& b) const { Unscope u; if ((*calls)++ == throw_at) { count_fault("comparator_throw"); throw UserThrow{}; } return less(a, b, order); }
};
template <class C> void go(const Op& op, Run& r, const std::vector<u64>& keys, size_t lo, size_t hi) {
    C c; for (size_t i = 0; i < keys.size(); i++) c.push_back(Rec{keys[i], i});
    const Fault* f = r.fault(op.id, "comparator_throw"); i64 calls = 0, order = op.arg(3) % 7; bool dflt = order == 6; if (dflt) { order = 0; f = nullptr; }
    size_t n = hi - lo; u64 lg = 1; while ((1ull << lg) < n + 1) lg++;
    Cmp cmp{order, &calls, f ? f->n : -1};
    Out out = sut([&] { if (dflt) HeapSort(c.begin() + lo, c.begin() + hi); else HeapSort(c.begin() + lo, c.begin() + hi, cmp); });
    EQ("container size", c.size(), keys.size());
    for (size_t i = 0; i < keys.size(); i++) if (i < lo || i >= hi) if (c[i].id != i || c[i].key != keys[i]) fail("wrong-answer", "element " + S(i) + " outside the sorted range [" + S(lo) + "," + S(hi) + ") changed");
    std::vector<bool> seen(keys.size());
    for (size_t i = lo; i < hi; i++) { u64 id = c[i].id; if (id >= keys.size() || id < lo || id >= hi || seen[id] || keys[id] != c[i].key) fail("wrong-answer", std::string(out == Out::ok ? "after the sort" : "after an interrupted sort") + " the range does not hold exactly its elements: position " + S(i)); seen[id] = true; }
    if (f && f->n < calls) { CHECK(out == Out::user_throw, "swallowed", "the comparison's exception did not reach the caller"); probe("interrupted"); return; }
    CHECK(out == Out::ok, "unexpected-exception", "sort threw " + last_out().what);
    for (size_t i = lo; i + 1 < hi; i++) if (Cmp::less(c[i + 1], c[i], order)) fail("wrong-answer", "not sorted: element " + S(i + 1) + " is before element " + S(i));
    if (!dflt && (u64)calls > 4 * n * (lg + 1) + 8) fail("no-progress", S((u64)calls) + " comparisons for " + S(n) + " elements");
}
// elements that own memory (a moved-from one no longer has its value), in the default order or one that may throw, and a range walked backwards
void owning(const Op& op, Run& r, std::vector<u64> keys, size_t lo, size_t hi) {
    if (keys.size() > 3000) return; int how = (int)((u64)op.arg(2) / 7 % 3);
    if (how < 2) {
        std::vector<std::string> v; for (u64 k : keys) v.push_back(std::string(12 + k % 20, (char)('a' + k % 13)) + std::to_string(k)); auto was = v;
        i64 n = 0, stop = -1; if (const Fault* f = r.fault(op.id, "comparator_throw")) if (how) stop = f->n;
        Out out = sut([&] { if (!how) HeapSort(v.begin() + lo, v.begin() + hi); else HeapSort(v.begin() + lo, v.begin() + hi, [&](const std::string& a, const std::string& b) { if (n++ == stop) { Unscope u; count_fault("comparator_throw"); throw UserThrow{}; } return a < b; }); });
        auto a = v, b = was; std::sort(a.begin() + lo, a.begin() + hi); std::sort(b.begin() + lo, b.begin() + hi); CHECK(a == b, "wrong-answer", out == Out::ok ? "sorting strings changed them or their neighbours" : "an interrupted sort of strings lost or invented some");
        CHECK(out == (stop >= 0 && stop < n ? Out::user_throw : Out::ok), "unexpected-exception", std::string("sorting strings: ") + out_name(out) + " " + last_out().what); if (out == Out::ok) CHECK(a == v, "wrong-answer", "strings not sorted");
        probe("owning_elements"); { Scope s; v.clear(); v.shrink_to_fit(); }
    } else {
        auto v = keys, w = keys; size_t n = keys.size(); must("sort", [&] { HeapSort(v.rbegin() + (n - hi), v.rbegin() + (n - lo)); }); std::sort(w.begin() + lo, w.begin() + hi, std::greater<u64>()); CHECK(v == w, "wrong-answer", "a range walked backwards is not sorted");
    }
}
// an order that itself sorts: each comparison of a few sorts the digits of its elements first, with the same algorithm, element type and container
void nested(const Op& op, Run& r, const std::vector<u64>& keys) {
    size_t n = std::min<size_t>(keys.size(), 40); using V = std::vector<u64>; V v(keys.begin(), keys.begin() + n); Rng q((u64)op.arg(2) + 5); u64 mod = 1 + q.below(3), calls = 0; bool bad = false; i64 stop = -1; if (const Fault* f = r.fault(op.id, "comparator_throw")) stop = f->n;
    using Order = std::function<bool(u64, u64)>; const Order plain = [](u64 x, u64 y) { return x < y; };
    auto digits = [](u64 x) { V d; for (; x; x /= 10) d.push_back(x % 10); std::sort(d.begin(), d.end()); return d; };
    auto less = [&](u64 a, u64 b) {
        V da, db; for (u64 x = a; x; x /= 10) da.push_back(x % 10); for (u64 x = b; x; x /= 10) db.push_back(x % 10);
        if ((i64)calls == stop) { Unscope u; count_fault("comparator_throw"); calls++; throw UserThrow{}; }
        if (calls++ % mod) { std::sort(da.begin(), da.end()); std::sort(db.begin(), db.end()); }
        else { HeapSort(da.begin(), da.end(), Order(plain)); HeapSort(db.begin(), db.end()); if (!std::is_sorted(da.begin(), da.end()) || !std::is_sorted(db.begin(), db.end())) bad = true; }
        return da < db;
    };
    Out out = sut([&] { HeapSort(v.begin(), v.end(), Order(std::ref(less))); }); bool threw = stop >= 0 && (u64)stop < calls;
    CHECK(out == (threw ? Out::user_throw : Out::ok), "unexpected-exception", std::string("a sort within a sort: ") + out_name(out) + " " + last_out().what); CHECK(!bad, "wrong-answer", "a sort begun by a comparison did not sort");
    V a(v.begin(), v.end()), b(keys.begin(), keys.begin() + n); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "wrong-answer", "a sort whose comparison sorts lost or invented elements"); probe("sort_within_a_sort");
    if (!threw) for (size_t i = 0; i + 1 < n; i++) if (digits(v[i + 1]) < digits(v[i])) fail("wrong-answer", "a sort whose comparison sorts left element " + S(i + 1) + " before element " + S(i));
    { Scope s; V().swap(v); }
}
void run(Run& r) {
    if (r.plan.get("large")) large_run();
    r.drive([&](const Op& op) {
        auto keys = ints_of((u64)op.arg(1) % 300000, op.arg(2) % 10, (u64)op.arg(2), op.arg(2) % 3 ? 64 : 3); Rng q((u64)op.arg(2));
        switch (op.arg(4) % 5) { case 1: std::sort(keys.begin(), keys.end()); break; case 2: std::sort(keys.rbegin(), keys.rend()); break; }
        size_t lo = 0, hi = keys.size(); if (op.arg(5) & 1) { lo = q.below(hi + 1); hi = lo + q.below(hi - lo + 1); }
        if (lo == hi) probe("empty_range"); if (hi - lo == 1) probe("one_element");
        if (op.arg(5) & 2) go<std::deque<Rec>>(op, r, keys, lo, hi); else go<std::vector<Rec>>(op, r, keys, lo, hi);
        if (op.arg(5) & 4) { // plain integers and pointers, default order
            std::vector<u64> v = keys, w = keys; must("sort", [&] { HeapSort(v.data() + lo, v.data() + hi); }); std::sort(w.begin() + lo, w.begin() + hi);
            CHECK(v == w, "wrong-answer", "plain integers not sorted, or neighbours changed");
        }
        if (op.arg(5) & 8) owning(op, r, keys, lo, hi);
        if (op.arg(5) & 16) nested(op, r, keys);
    });
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 60)) { // far beyond 64 K elements
        p.cfg["large"] = 1; i64 len = r.chance(1, 4) ? 65536 + r.range(-9, 9) : r.chance(1, 4) ? 131000 + (i64)r.below(168000) : 20000 + (i64)r.below(100000); auto& o = p.add(-1, "sort", {0, len, (i64)r.below(1u << 30), r.range(0, 6), r.range(0, 4), r.range(0, 3)});
        if (r.chance(1, 3)) p.fault(o.id, "comparator_throw", (i64)r.below((u64)len * 16)); p.random_sched(r, false); return;
    }
    for (u64 n = 1 + r.below(6); n > 0; n--) {
        u64 len = r.size(r.chance(1, 6) ? (tier ? 2500 : 1200) : 70);
        auto& o = p.add(-1, "sort", {0, (i64)len, (i64)r.below(1u << 30), r.range(0, 6), r.range(0, 4), r.range(0, 7) + (r.chance(1, 3) ? 8 : 0) + (r.chance(1, 5) ? 16 : 0)});
        if (r.chance(2, 3)) p.fault(o.id, "comparator_throw", r.chance(1, 4) ? (i64)r.below(4) : (i64)r.below(3 * len + 2 + len * (len > 8 ? 4 : 1)));
    }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C10", gen, run};
