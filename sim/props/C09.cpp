// C09: initialisable arrays read as written or filled, whatever the memory held before.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/InitializableArray.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
struct Arr {
    virtual ~Arr() {}
    virtual u64 get(size_t i, int how) = 0;
    virtual void set(size_t i, u64 v, int how) = 0;
    virtual void fill(u64 v, int how) = 0;
    virtual size_t size() = 0;
    virtual u64 conv(u64 v) = 0;              // the value as the element type holds it
    virtual void bytes(std::string& out) = 0;  // raw memory, to be replayed as stale contents later
    virtual bool all(std::vector<u64>&, int) { return false; }   // every element, by iterators
    virtual Arr* copy() = 0;
    virtual Arr* moved() = 0;
    virtual void assign(Arr& o, int how) = 0;  // of the same type: 0 copy, 1 move, 2 swap (with itself: an assignment to itself)
};
template <class T> u64 to_u(const T& v) { if constexpr (std::is_same_v<T, std::string>) return v.empty() ? 0 : std::stoull(v); else { u64 r = 0; memcpy(&r, &v, sizeof(T)); return r; } }
template <class T> T from_u(u64 v) { if constexpr (std::is_same_v<T, std::string>) return v ? std::string(v % 3 ? 3 : 30, '0') + std::to_string(v) : std::string(); else if constexpr (std::is_floating_point_v<T>) return (T)(i64)(v % 100000); else return (T)v; }
// In-place array constructed in memory with chosen stale contents
template <class T, size_t N> struct InPlace : Arr {
    using A = InitializableArray<T, N>;
    alignas(64) unsigned char buf[sizeof(A)]; A* a;
    explicit InPlace(u64 init, const std::string& stale, bool dflt) {
        memcpy(buf, stale.data(), std::min(stale.size(), sizeof buf)); asm volatile("" : : "r"(buf) : "memory");
        Scope s; a = dflt ? new (buf) A() : new (buf) A(from_u<T>(init)); asm volatile("" : : "r"(buf) : "memory");
    }
    explicit InPlace(const InPlace& o) { Scope s; a = new (buf) A(*o.a); }
    u64 get(size_t i, int how) override { const A& c = *a; i64 n = (i64)N, p = (i64)i; switch (how % 7) { case 0: return to_u<T>(c.get(i)); case 1: return to_u<T>((T)c[i]); case 2: return to_u<T>((T)(*a)[i]); case 3: return to_u<T>((T)*(c.begin() + p)); case 4: return to_u<T>((T)*(a->begin() + p)); case 5: return to_u<T>((T)*(c.end() + (p - n))); default: return to_u<T>((T)*(c.cbegin() + p)); } }
    void set(size_t i, u64 v, int how) override { if (how % 3 == 1) (*a)[i] = from_u<T>(v); else if (how % 3 == 2) *(a->begin() + (i64)i) = from_u<T>(v); else a->set(i, from_u<T>(v)); }
    void fill(u64 v, int how) override { if (how % 3 == 0) a->fill(from_u<T>(v)); else if (how % 3 == 1) a->init(from_u<T>(v)); else a->fill(); }
    template <class C> static void every(C& c, std::vector<u64>& v, int how) {
        auto put = [&](auto it) { v.push_back(to_u<T>((T)*it)); };
        if (how == 0) for (auto it = c.begin(); it != c.end() && v.size() <= N; ++it) put(it);
        else if (how == 1) for (auto it = c.begin(); !(it == c.end()) && v.size() <= N;) put(it++);
        else { auto it = c.end(); while (it != c.begin() && v.size() <= N) { if (how == 2) put(--it); else if (how == 3) { auto was = it, old = it--; if (old != was) v.push_back(0); put(it); } else { it -= 1; put(it); } } std::reverse(v.begin(), v.end()); }
        if ((size_t)(c.end() - c.begin()) != N || (size_t)((c.begin() + 1) - c.begin()) != 1 || (size_t)(c.end() - ((c.begin() += (i64)N - 1))) != 1 || (c.end() - (i64)N) != c.begin()) v.push_back(0); // distances
    }
    bool all(std::vector<u64>& v, int how) override { const A& c = *a; if (how & 1) every(c, v, how / 2 % 5); else every(*a, v, how / 2 % 5); return true; }
    size_t size() override { return a->size(); }
    u64 conv(u64 v) override { return to_u<T>(from_u<T>(v)); }
    void bytes(std::string& out) override { out.assign((const char*)buf, sizeof buf); }
    Arr* copy() override { return new InPlace(*this); }
    Arr* moved() override { return new InPlace(*this); }
    void assign(Arr& x, int how) override { auto& o = static_cast<InPlace&>(x); if (how == 0) *a = *o.a; else if (how == 1) *a = std::move(*o.a); else if (&o == this) { const A& same = *a; *a = same; } else if constexpr (sizeof(A) < 100000) std::swap(*a, *o.a); }
};
template <class T> struct Folk : Arr {
    using A = InitializableArrayFolklore<T>; std::unique_ptr<A> a;
    Folk(size_t n, u64 init) { Scope s; a.reset(new A(n, from_u<T>(init))); }
    Folk(const std::vector<u64>& v) { std::vector<T> w; for (u64 x : v) w.push_back(from_u<T>(x)); Scope s; a.reset(new A(w.begin(), w.end())); }
    Folk(const Folk& o) { Scope s; a.reset(new A(*o.a)); }
    u64 get(size_t i, int) override { const A& c = *a; return to_u<T>(c.get(i)); }
    void set(size_t i, u64 v, int) override { a->set(i, from_u<T>(v)); }
    void fill(u64 v, int how) override { if (how % 3 == 0) a->fill(from_u<T>(v)); else if (how % 3 == 1) a->init(from_u<T>(v)); else a->fill(); }
    size_t size() override { return a->size(); }
    u64 conv(u64 v) override { return to_u<T>(from_u<T>(v)); }
    void bytes(std::string&) override {}
    Folk(Folk&& o) { Scope s; a.reset(new A(std::move(*o.a))); }
    Arr* copy() override { return new Folk(*this); }
    Arr* moved() override { return new Folk(std::move(*this)); }
    void assign(Arr& x, int how) override { auto& o = static_cast<Folk&>(x); if (how == 0) *a = *o.a; else if (how == 1) *a = std::move(*o.a); else if (&o == this) { const A& same = *a; *a = same; } else std::swap(*a, *o.a); }
};
using Maker = Arr* (*)(u64, const std::string&, bool);
template <class T, size_t N> Arr* mk(u64 i, const std::string& s, bool d) { return new InPlace<T, N>(i, s, d); }
struct Type { Maker make; size_t bytes_per, n; };
const Type types[] = {
    {mk<uint8_t, 1>, 1, 1}, {mk<uint8_t, 2>, 1, 2}, {mk<uint8_t, 7>, 1, 7}, {mk<uint8_t, 100>, 1, 100}, {mk<uint8_t, 255>, 1, 255}, {mk<uint8_t, 256>, 1, 256},
    {mk<int8_t, 5>, 1, 5}, {mk<int8_t, 128>, 1, 128}, {mk<uint16_t, 3>, 2, 3}, {mk<uint16_t, 40>, 2, 40}, {mk<int16_t, 301>, 2, 301}, {mk<int, 1>, 4, 1}, {mk<int, 4>, 4, 4},
    {mk<int, 33>, 4, 33}, {mk<uint32_t, 8>, 4, 8}, {mk<uint32_t, 200>, 4, 200}, {mk<int64_t, 2>, 8, 2}, {mk<int64_t, 6>, 8, 6}, {mk<int64_t, 64>, 8, 64}, {mk<uint64_t, 1>, 8, 1}, {mk<uint64_t, 9>, 8, 9}, {mk<uint64_t, 77>, 8, 77}, {mk<double, 10>, 8, 10}, {mk<float, 21>, 4, 21},
};
const size_t NT = sizeof types / sizeof types[0], ND = 8;
const Type big[] = {    // behind the small ones and the dynamic ones: links that need 16 bits and more
    {mk<uint16_t, 65535>, 2, 65535}, {mk<uint16_t, 65536>, 2, 65536}, {mk<int16_t, 32767>, 2, 32767}, {mk<uint32_t, 66001>, 4, 66001}, {mk<int, 140002>, 4, 140002}, {mk<int64_t, 70001>, 8, 70001}, {mk<uint64_t, 66003>, 8, 66003}, {mk<double, 133000>, 8, 133000}, {mk<float, 66000>, 4, 66000},
};
const size_t NB = sizeof big / sizeof big[0];
bool in_place(int t) { return t < (int)NT || t >= (int)NT + ND; }
const Type& type_of(int t) { return t < (int)NT ? types[t] : big[t - (int)NT - (int)ND]; }
struct Obj { std::unique_ptr<Arr> a; std::vector<u64> m; int type = -1; bool lost = false; };
Obj obj[2];
size_t type_bytes(const Obj& o) { return in_place(o.type) ? type_of(o.type).n * type_of(o.type).bytes_per : 0; }
u64 g_span = 120;
std::map<int, std::vector<std::string>> snaps;   // earlier memory images by type
void check_all(Obj& o, const char* when) {
    if (!o.a || o.lost) return;
    EQ("size", value("size", [&] { return (u64)o.a->size(); }), o.m.size(), when);
    for (size_t i = 0; i < o.m.size(); i++) { u64 g = value("get", [&] { return o.a->get(i, (int)i); }); if (g != o.m[i]) fail("wrong-answer", std::string(when) + ": element " + S(i) + " of " + S(o.m.size()) + " reads " + S(g) + ", expected " + S(o.m[i])); }
}
std::string stale(int type, i64 mode, u64 seed) {
    const Type& t = type_of(type); Rng r(seed); size_t act = t.n + t.n % 2, len = 16 + (act + 4) * t.bytes_per + 64; std::string s(len, 0);
    mode %= 9;
    if (mode < 4) { fill_garbage(s.data(), len, (int)mode, r); return s; }
    // memory that mimics the bookkeeping: element k of the image holds an index-like value, whatever the member order
    auto put = [&](size_t k, u64 v) { if ((k + 1) * t.bytes_per <= len) memcpy(&s[k * t.bytes_per], &v, t.bytes_per); };
    size_t cells = len / t.bytes_per; auto& sn = snaps[type];
    if (mode == 4 && !sn.empty()) return r.pick(sn);
    for (size_t k = 0; k < cells; k++) put(k, mode == 5 ? 2 * r.below(act / 2 + 1) : mode == 6 ? r.below(act + 2) : mode == 7 ? act - k % (act + 1) : 0);
    size_t heads[] = {16 / t.bytes_per, 24 / t.bytes_per, 8 / t.bytes_per, 32 / t.bytes_per}; size_t h = heads[r.below(3)];
    if (mode >= 7) { std::vector<size_t> b(act / 2); std::iota(b.begin(), b.end(), 0); for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[r.below(i)]); for (size_t i = 0; i + 1 < b.size(); i += 2) { put(h + 2 * b[i], 2 * b[i + 1]); put(h + 2 * b[i + 1], 2 * b[i]); } }
    return s;
}
u64 val(const Obj& o, i64 x, i64 how) { u64 n = o.m.size() + 1; switch (how % 5) { case 0: return 2 * ((u64)x % (n / 2 + 1)); case 1: return (u64)x % (n + 1); case 2: return (u64)x * 0x9e3779b97f4a7c15ull; case 3: return n - (u64)x % n; default: return x % 3 ? 0 : ~0ull; } }
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 160000; large_run(); } else g_span = 120;
    if (r.plan.get("many")) large_run();
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1]; Obj& d = obj[1 - (op.arg(0) & 1)];
        if (op.name == "new") {
            o.a.reset(); o.m.clear(); o.lost = false; o.type = (int)((u64)op.arg(1) % (NT + ND + NB)); u64 n, init; r.arm(op);
            Arr* a = nullptr; std::vector<u64> v; Out out;
            if (in_place(o.type)) {
                std::string st = stale(o.type, op.arg(2), (u64)op.arg(3)); n = type_of(o.type).n; o.m.resize(n); bool dflt = op.arg(4) % 4 == 0; init = dflt ? 0 : val(o, op.arg(4), op.arg(5));
                out = sut([&] { a = type_of(o.type).make(init, st, dflt); }); if (op.arg(2) % 9 >= 4) probe("memory_mimics_bookkeeping"); count_fault("stale_memory");
            } else {
                n = (u64)op.arg(3) % g_span; int k = o.type - (int)NT; init = k < 3 || k == 6 ? val(o, op.arg(4), op.arg(5)) : 0; if (k >= 3 && k != 6) v = ints_of(n, op.arg(4) % 10, (u64)op.arg(3)); o.m.resize(n);
                out = sut([&] { switch (k) { case 0: a = new Folk<uint8_t>(n, init); break; case 1: a = new Folk<int>(n, init); break; case 2: a = new Folk<u64>(n, init); break; case 3: a = new Folk<u64>(v); break; case 4: a = new Folk<uint16_t>(v); break; case 5: a = new Folk<double>(v); break; case 6: a = new Folk<std::string>(n, init); break; default: a = new Folk<std::string>(v); } });
            }
            bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "construction threw"); o.m.clear(); return; }
            o.a.reset(a); for (size_t i = 0; i < o.m.size(); i++) o.m[i] = o.a->conv(v.empty() ? init : v[i]); check_all(o, "after construction"); return;
        }
        if (!o.a || o.lost) return; size_t n = o.m.size();
        if (op.name == "set") {
            if (!n) return; size_t i = (u64)op.arg(1) % n; u64 v = val(o, op.arg(2), op.arg(3)); r.arm(op);
            Out out = sut([&] { o.a->set(i, v, (int)op.arg(3)); }); bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) o.m[i] = o.a->conv(v); else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "set threw"); probe("set_failed"); }
            check_all(o, out == Out::ok ? "after set" : "after a failed set");
        } else if (op.name == "fill") {
            u64 v = val(o, op.arg(2), op.arg(3)); if (op.arg(1) % 3 == 2) v = 0; r.arm(op); Out out = sut([&] { o.a->fill(v, (int)(op.arg(1) % 3)); }); bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "fill threw"); probe("fill_failed"); check_all(o, "after a failed fill"); return; }
            for (auto& x : o.m) x = o.a->conv(v); check_all(o, "after fill");
        } else if (op.name == "churn") {   // very many fills, with few writes in between
            Rng q((u64)op.arg(2)); int how = (int)q.below(2); u64 w = 1 + q.below(3), at = q.chance(1, 2) ? ~0ull : (u64)op.arg(1) - q.below(9); // then all writes after one fill, and none later
            for (u64 k = (u64)op.arg(1); k > 0; k--) {
                u64 v = val(o, (i64)q.below(600), q.range(0, 4)); must("fill", [&] { o.a->fill(v, how); }); u64 c = o.a->conv(v); for (auto& x : o.m) x = c;
                for (u64 j = at == ~0ull ? q.below(w + 1) : k == at ? n : 0; j > 0 && n; j--) { size_t i = q.below(n); u64 u = val(o, (i64)q.below(600), q.range(0, 4)); must("set", [&] { o.a->set(i, u, (int)k); }); o.m[i] = o.a->conv(u); }
                if (n) { size_t i = q.below(n); u64 g = value("get", [&] { return o.a->get(i, (int)k); }); if (g != o.m[i]) fail("wrong-answer", "many fills: element " + S(i) + " reads " + S(g) + ", expected " + S(o.m[i])); }
            }
            check_all(o, "after many fills"); probe("hundreds_of_fills");
        } else if (op.name == "writes") {  // very many writes after one fill
            Rng q((u64)op.arg(2)); int way = (int)q.below(4), how = (int)q.below(5); u64 at = q.below(n + 1), stride = 1 + 2 * q.below(n / 2 + 1);
            for (u64 k = std::min<u64>((u64)op.arg(1), 200000); k > 0 && n; k--) {
                at = way == 0 ? q.below(n) : way == 1 ? at + 1 : way == 2 ? at + n - 1 : at + stride; size_t i = at %= n; u64 v = val(o, (i64)q.below(1u << 20), q.chance(1, 20) ? q.range(0, 4) : how); must("set", [&] { o.a->set(i, v, (int)k); }); o.m[i] = o.a->conv(v);
                size_t j = q.chance(1, 2) ? i : q.below(n); u64 g = value("get", [&] { return o.a->get(j, (int)k); }); if (g != o.m[j]) fail("wrong-answer", "many writes: element " + S(j) + " of " + S(n) + " reads " + S(g) + ", expected " + S(o.m[j]));
            }
            check_all(o, "after many writes"); probe("thousands_of_writes");
        } else if (op.name == "snap") { std::string b; o.a->bytes(b); if (!b.empty() && snaps[o.type].size() < 8) snaps[o.type].push_back(b); }
        else if (op.name == "copy" && op.arg(1)) {   // assignment, move, swap, assignment to itself
            int how = (int)(op.arg(1) % 6); if (how == 0) how = 1; bool same = d.a && d.type == o.type && !d.lost; if (how < 5 && how != 3 && !same) return;
            if (how == 5) { must("assignment to itself", [&] { o.a->assign(*o.a, 2); }); check_all(o, "after an assignment to itself"); probe("assigned_to_itself"); return; }
            if (how == 3) { Arr* a = nullptr; must("move", [&] { a = o.a->moved(); }); d.a.reset(a); d.m = o.m; d.type = o.type; d.lost = false; o.a.reset(); o.m.clear(); check_all(d, "after a move"); probe("moved"); return; }
            if (how == 4) { if (type_bytes(o) >= 100000) return; must("swap", [&] { d.a->assign(*o.a, 2); }); std::swap(d.m, o.m); check_all(d, "after a swap"); check_all(o, "after a swap"); probe("swapped"); return; }
            r.arm(op); Out out = sut([&] { d.a->assign(*o.a, how - 1); }); bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc && how == 1, "unexpected-exception", "assignment threw"); d.lost = true; check_all(o, "source of a failed assignment"); return; }
            d.m = o.m; if (how == 2) { o.a.reset(); o.m.clear(); probe("moved"); } else check_all(o, "source of an assignment"); check_all(d, "after an assignment"); probe("assigned");
        }
        else if (op.name == "copy") { Arr* a = nullptr; r.arm(op); Out out = sut([&] { a = o.a->copy(); }); bool f = alloc_fired(); disarm_alloc(); if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "copy threw"); return; } d.a.reset(a); d.m = o.m; d.type = o.type; d.lost = false; check_all(d, "copy"); }
        else if (op.name == "all") {
            std::vector<u64> v; bool has = false; must("iteration", [&] { has = o.a->all(v, (int)op.arg(1)); });
            if (has) { EQ("elements between begin() and end()", v.size(), n); for (size_t i = 0; i < n; i++) if (v[i] != o.m[i]) fail("wrong-answer", "iteration: element " + S(i) + " of " + S(n) + " reads " + S(v[i]) + ", expected " + S(o.m[i])); probe("iterated"); }
            check_all(o, "full comparison"); check_all(d, "other array"); }
    });
    for (auto& o : obj) { check_all(o, "at the end"); o.a.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    i64 ty = (i64)r.below(NT + ND); i64 hot = r.range(0, 4);
    if (r.chance(1, 100)) { // the dynamic array, far beyond 64 K elements
        p.cfg["large"] = 1; ty = (i64)NT + r.range(0, r.chance(1, 4) ? (i64)ND - 1 : 5);
        for (int k = 1 + (int)r.below(2); k > 0; k--) {
            p.add(-1, "new", {0, ty, 0, (i64)(r.chance(1, 3) ? 65536 + r.range(-9, 9) : 30000 + (i64)r.below(120000)), r.range(0, 400), r.range(0, 4)}); if (r.chance(1, 3)) p.fault(p.ops.back().id, "alloc", r.range(1, 2), 0);
            for (int i = 2 + (int)r.below(12); i > 0; i--) { if (r.chance(1, 6)) p.add(-1, "fill", {0, r.range(0, 2), (i64)r.below(600), r.range(0, 4)}); else if (r.chance(1, 8)) p.add(-1, "copy", {0}); else p.add(-1, "set", {0, (i64)r.below(1 << 20), (i64)r.below(600), r.range(0, 4)}); }
        }
        p.random_sched(r, false); return;
    }
    if (r.chance(1, 60)) { // arrays in place that need long links
        p.cfg["large"] = 1; ty = (i64)(NT + ND + r.below(NB));
        for (int k = 1 + (int)r.below(2); k > 0; k--) {
            p.add(-1, "new", {0, ty, r.range(0, 8), (i64)r.below(1u << 30), r.range(0, 400), r.range(0, 4)});
            for (int i = 1 + (int)r.below(4); i > 0; i--) { p.add(-1, "writes", {0, r.chance(1, 2) ? (i64)r.below(150000) : (i64)r.below(3000), (i64)r.below(1u << 30)}); if (r.chance(1, 3)) p.add(-1, "fill", {0, r.range(0, 2), (i64)r.below(600), r.range(0, 4)}); if (r.chance(1, 8)) p.add(-1, "snap", {0}); if (r.chance(1, 8)) p.add(-1, "copy", {(i64)r.below(2), r.range(0, 5)}); }
        }
        p.random_sched(r, false); return;
    }
    auto fresh = [&](int s) { p.add(-1, "new", {s, r.chance(5, 6) ? ty : (i64)r.below(NT + ND), r.range(0, 8), (i64)r.below(1u << 30), r.range(0, 400), r.range(0, 4)}); };
    fresh(0); if (r.chance(1, 40)) { if (r.chance(1, 12)) p.cfg["many"] = 1; p.add(-1, "churn", {0, p.get("many") ? 65700 + (i64)r.below(900) : r.chance(1, 2) ? 250 + (i64)r.below(400) : 1000 + (i64)r.below(3000), (i64)r.below(1u << 30)}); }
    u64 n = 2 + r.below(r.chance(1, 4) ? (tier ? 700 : 300) : 60); bool two = r.chance(1, 6); u64 span = r.one_of<u64>({4, 16, 1 << 16});
    for (u64 i = 0; i < n; i++) {
        int s = two ? (int)r.below(2) : 0; u64 x = r.below(60);
        if (x < 50) p.add(-1, "set", {s, (i64)r.below(span), (i64)r.below(600), r.chance(2, 3) ? hot : r.range(0, 4)});
        else if (x == 50 && r.chance(1, 3)) p.add(-1, "writes", {s, (i64)r.size(1500), (i64)r.below(1u << 30)});
        else if (x < 53) p.add(-1, "fill", {s, r.range(0, 2), (i64)r.below(600), r.range(0, 4)});
        else if (x < 55) p.add(-1, "snap", {s});
        else if (x < 57) fresh(s);
        else if (x < 58) { p.add(-1, "copy", {s, r.chance(1, 3) ? 0 : r.range(1, 5)}); two = true; }
        else p.add(-1, "all", {s, r.range(0, 9)});
    }
    if (ty >= (i64)NT) for (u64 k = 1 + r.below(5); k > 0; k--) p.fault(r.pick(p.ops).id, "allocw", r.range(1, 3), r.chance(1, 3));
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C09", gen, run};
