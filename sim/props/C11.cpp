// C11: rank / select / access of static bit structures, any number of concurrent readers.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/WaveletTree.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
enum { K_SEL, K_RANK, K_MB1, K_MB2, K_MB3, K_WT, K_N };
struct Obj {
    int kind = -1;
    std::unique_ptr<SuccinctBitVector<true>> st;
    std::unique_ptr<SuccinctBitVector<false>> sf;
    std::unique_ptr<MultiBitVector<1>> m1;
    std::unique_ptr<MultiBitVector<2>> m2;
    std::unique_ptr<MultiBitVector<3>> m3;
    std::unique_ptr<WaveletTree> wt;
    // model
    std::vector<u64> sym;            // stored symbol per position
    std::vector<u64> before;         // equal symbols before the position
    std::vector<u64> ones;           // positions of set bits
    std::vector<u64> rank1;          // prefix counts, size n+1
    bool bitv() const { return kind == K_SEL || kind == K_RANK; }
};
Obj obj[2];
u64 g_step = 1;

// puts a freshly built structure into its place: a new object, or assigned into the one that is there
template <class T> void put(std::unique_ptr<T>& slot, T* fresh, i64 into) {
    if (!slot || into % 3 == 0) { slot.reset(); slot.reset(fresh); return; }
    if (into % 3 == 1) *slot = std::move(*fresh); else { const T& c = *fresh; *slot = c; }
    delete fresh; Unscope u; probe("assigned_into_used_object");
}
template <class M> void fill_multi(M& m, const Obj& o) {
    for (u64 i = 0; i < o.sym.size(); i++) m.set(i, (uint8_t)o.sym[i]);
    m.build();
}
void build(Obj& o, const Op& op) {
    o.kind = (int)(op.arg(1) % K_N); u64 n = (u64)op.arg(2); i64 mode = op.arg(3); u64 seed = (u64)op.arg(4); i64 how = op.arg(5), into = op.arg(6);
    o.sym.clear(); o.before.clear(); o.ones.clear(); o.rank1.clear();
    if (into % 3 == 0) { o.st.reset(); o.sf.reset(); o.m1.reset(); o.m2.reset(); o.m3.reset(); o.wt.reset(); }
    if (o.kind == K_WT && n == 0) n = 1;
    u64 kmax = 2;
    if (o.bitv()) { auto b = bits_of(n, mode, seed); for (bool x : b) o.sym.push_back(x); }
    else {
        kmax = o.kind == K_MB1 ? 2 : o.kind == K_MB2 ? 4 : o.kind == K_MB3 ? 8 : 256;
        Rng r(seed);
        u64 lim = o.kind == K_WT ? r.one_of<u64>({2, 3, 4, 5, 8, 17, 200, 256}) : 1 + r.below(kmax);
        if (lim < 2 && o.kind == K_WT) lim = 2;
        u64 fav = r.below(lim); int sh = (int)(mode % 4);
        for (u64 i = 0; i < n; i++) o.sym.push_back(sh == 0 ? r.below(lim) : sh == 1 ? (r.chance(9, 10) ? fav : r.below(lim)) : sh == 2 ? (i / 50) % lim : fav);
        if (o.kind == K_WT) { u64 mx = 0; for (auto x : o.sym) mx = std::max(mx, x); if (mx == 0 && r.chance(1, 2)) o.sym[r.below(n)] = lim - 1; else if (mx == 0) probe("only_zero_symbols"); }
    }
    std::vector<u64> cnt(256, 0); u64 c = 0;
    o.rank1.push_back(0);
    for (u64 i = 0; i < o.sym.size(); i++) {
        o.before.push_back(cnt[o.sym[i]]++);
        if (o.bitv()) { if (o.sym[i]) { o.ones.push_back(i); c++; } o.rank1.push_back(c); }
    }
    n = o.sym.size();
    if (o.bitv()) {
        BitVector* bv = nullptr;
        must("bit vector construction", [&] {
            if (how % 3 == 0) { bv = new BitVector(n); for (u64 i = 0; i < n; i++) (*bv)[i] = o.sym[i]; }
            else if (how % 3 == 1) { bv = new BitVector(); for (u64 i = 0; i < n; i++) bv->push_back(o.sym[i]); }
            else { bv = new BitVector(n + 1 + seed % 200, true); for (u64 i = 0; i < n; i++) (*bv)[i] = o.sym[i]; bv->resize(n); }
        });
        if (how % 3 == 2) probe("stale_bits_past_end");
        must("rank structure construction", [&] {
            if (o.kind == K_SEL) { if (how & 4) put(o.st, new SuccinctBitVector<true>(*bv), into); else put(o.st, new SuccinctBitVector<true>(std::move(*bv)), into); }
            else { if (how & 4) put(o.sf, new SuccinctBitVector<false>(*bv), into); else put(o.sf, new SuccinctBitVector<false>(std::move(*bv)), into); }
            delete bv;
        });
        if (o.ones.size() > 1024) probe("several_select_samples");
        if (n % 512 == 0) probe("size_multiple_of_512");
        if (n % 64 == 0) probe("size_multiple_of_64");
    } else if (o.kind == K_WT) {
        must("wavelet tree construction", [&] {
            if (how & 1) { std::vector<uint8_t> v(o.sym.begin(), o.sym.end()); put(o.wt, new WaveletTree(v), into); }
            else { std::vector<int> v(o.sym.begin(), o.sym.end()); put(o.wt, new WaveletTree(v), into); }
        });
    } else must("small-alphabet vector construction", [&] {
        if (o.kind == K_MB1) { auto* m = new MultiBitVector<1>(); fill_multi(*m, o); put(o.m1, m, into); }
        else if (o.kind == K_MB2) { auto* m = new MultiBitVector<2>(); fill_multi(*m, o); put(o.m2, m, into); }
        else { auto* m = new MultiBitVector<3>(); fill_multi(*m, o); put(o.m3, m, into); }
    });
}
template <class SBV> void query_bits(const Obj& o, const SBV& b, i64 what, u64 i) {
    u64 n = o.sym.size();
    switch (what % 6) {
    case 0: i %= n + 1; EQ("rank_1", value("rank_1", [&] { return (u64)b.rank_1(i); }), o.rank1[i], "i=" + S(i)); break;
    case 1: i %= n + 1; EQ("rank_0", value("rank_0", [&] { return (u64)b.rank_0(i); }), i - o.rank1[i], "i=" + S(i)); break;
    case 2: if (!n) break; i %= n; EQ("access", value("access", [&] { return (u64)b[i]; }), o.sym[i], "i=" + S(i)); break;
    case 3: i %= n + 1; EQ("rank", value("rank", [&] { return (u64)b.rank(i); }), o.rank1[i], "i=" + S(i)); break;
    case 4: EQ("size", value("size", [&] { return (u64)b.size(); }), n); break;
    default:
        if constexpr (std::is_same_v<SBV, SuccinctBitVector<true>>) {
            if (o.ones.empty()) break;
            i %= o.ones.size();
            EQ("select", value("select", [&] { return (u64)b.select(i); }), o.ones[i], "k=" + S(i));
        }
    }
}
template <class M> void query_multi(const Obj& o, const M& m, i64 what, u64 i) {
    u64 n = o.sym.size(); if (!n) return; i %= n;
    if (what % 2 == 0 || o.sym[i] == 0) EQ("access", value("access", [&] { return (u64)m[i]; }), o.sym[i], "i=" + S(i));
    else EQ("rank", value("rank", [&] { return (u64)m.rank(i); }), o.before[i], "i=" + S(i));
}
void query(const Obj& o, i64 what, u64 i) {
    switch (o.kind) {
    case K_SEL: query_bits(o, *o.st, what, i); break;
    case K_RANK: query_bits(o, *o.sf, what, i); break;
    case K_MB1: query_multi(o, *o.m1, what, i); break;
    case K_MB2: query_multi(o, *o.m2, what, i); break;
    case K_MB3: query_multi(o, *o.m3, what, i); break;
    case K_WT: {
        u64 n = o.sym.size(); i %= n; const WaveletTree& w = *o.wt;
        switch (what % 5) {
        case 0: EQ("access", value("access", [&] { return (u64)w[i]; }), o.sym[i], "i=" + S(i)); break;
        case 1: EQ("rank", value("rank", [&] { return (u64)w.rank(i); }), o.before[i], "i=" + S(i)); break;
        case 2: { uint8_t c = (uint8_t)o.sym[i]; EQ("rank of symbol", value("rank of symbol", [&] { return (u64)w.rank(c, i); }), o.before[i], "i=" + S(i)); break; }
        case 3: { auto p = value("AccessAndRank", [&] { return w.AccessAndRank(i); }); EQ("AccessAndRank symbol", p.first, o.sym[i], "i=" + S(i)); EQ("AccessAndRank rank", p.second, o.before[i], "i=" + S(i)); break; }
        default: EQ("size", value("size", [&] { return (u64)w.size(); }), n);
        }
    }
    }
}
void sweep(const Obj& o) {
    u64 n = o.sym.size();
    for (int w = 0; w < 6; w++) {
        if (o.bitv() && (w == 3 || w == 1)) continue;
        u64 top = o.bitv() ? (w == 5 ? o.ones.size() : w == 4 ? 1 : n + (w == 0)) : o.kind == K_WT ? (w < 4 ? n : w == 4 ? 1 : 0) : (w < 2 ? n : 0);
        for (u64 i = 0; i < top; i += g_step) query(o, w, i);
        if (g_step > 1 && top) for (u64 i : {top - 1, top / 2, (u64)65535, (u64)65536, (u64)65537}) if (i < top) query(o, w, i);
    }
}
// more bits than 32-bit numbers reach: all of one kind but a few, around the powers of two
template <class SBV> void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); bool bg = op.arg(1) & 1; u64 n = (u64)op.arg(2) + 70; std::vector<u64> odd; // positions that differ from the rest
    for (u64 e = 9; e < 33; e++) for (i64 d = -2; d <= 2; d++) if ((1ull << e) + (u64)d < n && q.chance(2, 3)) odd.push_back((1ull << e) + (u64)d);
    for (int i = 0; i < 20; i++) odd.push_back(q.below(n));
    if (q.chance(1, 2)) odd.push_back(n - 1);
    std::sort(odd.begin(), odd.end()); odd.erase(std::unique(odd.begin(), odd.end()), odd.end());
    auto below = [&](u64 i) { return (u64)(std::lower_bound(odd.begin(), odd.end(), i) - odd.begin()); };
    auto ones = [&](u64 i) { return bg ? i - below(i) : below(i); };
    BitVector* bv = nullptr; SBV* s = nullptr;
    must("bit vector construction", [&] { bv = new BitVector(n, bg); for (u64 x : odd) (*bv)[x] = !bg; });
    must("rank structure construction", [&] { s = new SBV(std::move(*bv)); delete bv; });
    auto at = [&](u64 i) {
        if (i < n) { EQ("access", value("access", [&] { return (u64)(*s)[i]; }), (u64)(bg != std::binary_search(odd.begin(), odd.end(), i)), "i=" + S(i)); EQ("rank_0", value("rank_0", [&] { return (u64)s->rank_0(i); }), i - ones(i), "i=" + S(i)); }
        if (i <= n) EQ("rank_1", value("rank_1", [&] { return (u64)s->rank_1(i); }), ones(i), "i=" + S(i));
    };
    auto sel = [&](u64 k) {
        if constexpr (std::is_same_v<SBV, SuccinctBitVector<true>>) { if (k >= ones(n)) return; u64 lo = 0, hi = n; while (lo + 1 < hi) { u64 m = (lo + hi) / 2; if (ones(m) <= k) lo = m; else hi = m; } EQ("select", value("select", [&] { return (u64)s->select(k); }), lo, "k=" + S(k)); }
        else (void)k;
    };
    EQ("size", value("size", [&] { return (u64)s->size(); }), n);
    for (u64 x : odd) { at(x); at(x + 1); sel(ones(x)); sel(ones(x + 1)); if (x) at(x - 1); }
    for (int i = 0; i < 40; i++) { at(q.below(n)); sel(q.below(ones(n))); }
    at(n); at(n - 1); sel(ones(n) - 1); probe("beyond_32_bits");
    must("destruction", [&] { delete s; });
}
void run(Run& r) {
    g_step = 1; if (i64 z = r.plan.get("large")) { g_step = (u64)z; large_run(); }
    r.drive([&](const Op& op) {
        if (op.name == "build") build(obj[op.arg(0) & 1], op);
        else if (op.name == "q") { Obj& o = obj[op.arg(0) & 1]; if (o.kind >= 0) query(o, op.arg(1), (u64)op.arg(2)); }
        else if (op.name == "sweep") { Obj& o = obj[op.arg(0) & 1]; if (o.kind >= 0) sweep(o); }
        else if (op.name == "huge") { if (op.arg(1) & 2) huge<SuccinctBitVector<false>>(op); else huge<SuccinctBitVector<true>>(op); }
    });
    if (conflict_seen()) probe("conflicting_accesses_by_readers");
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 2000)) { p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), r.range(0, 3), (1ll << (r.chance(1, 4) ? 31 : 32)) + (i64)r.below(3000)}); p.random_sched(r, false); return; }
    int objs = 1 + (int)r.below(2); bool large = r.chance(1, 60);
    for (int k = 0; k < objs; k++) {
        i64 kind = r.one_of<i64>({K_SEL, K_SEL, K_SEL, K_RANK, K_MB1, K_MB2, K_MB3, K_WT});
        u64 n = r.size(tier ? 6000 : 2600);
        if (kind == K_SEL && r.chance(1, 5)) n = r.size(tier ? 40000 : 9000);
        if (kind == K_WT) n = r.size(400);
        if (large) { objs = 1; n = kind == K_WT ? 66000 + r.below(30000) : kind == K_SEL || kind == K_RANK ? 65000 + r.below(r.chance(1, 4) ? 1400000 : 300000) : 66000 + r.below(60000); p.cfg["large"] = 1 + (i64)(n / 8000) + (i64)r.below(5); }
        p.add(-1, "build", {k, kind, (i64)n, r.range(0, 11), (i64)r.below(1u << 30), r.range(0, 7)});
    }
    bool par = r.chance(4, 5);
    int tasks = par ? r.tasks() : 0;
    u64 hot[6]; for (auto& h : hot) h = r.below(large ? 1 << 21 : 1 << 14);
    i64 hw[3]; for (auto& h : hw) h = r.range(0, 29);
    for (int t = 0; t < tasks; t++) {
        int q = tasks > 4 ? 1 + (int)r.below(4) : 2 + (int)r.below(tier ? 24 : 14);
        for (int k = 0; k < q; k++) {
            u64 i = r.chance(3, 4) ? hot[r.below(6)] + r.below(2) : r.below(large ? 1 << 21 : 1 << 14);
            p.add(t, "q", {(i64)r.below((u64)objs), r.chance(2, 3) ? hw[r.below(3)] : r.range(0, 29), (i64)i});
        }
    }
    for (int k = 0; k < objs; k++) if (!par || r.chance(1, 2)) p.add(-1, "sweep", {k});
    if (!large && r.chance(1, 4)) { // one object after another in the same place, asked the same questions
        for (int g = 1 + (int)r.below(4); g > 0; g--) {
            i64 k = (i64)r.below((u64)objs); auto b = p.ops[(size_t)k].a; i64 w[3], x[3]; for (int j = 0; j < 3; j++) { w[j] = r.range(0, 29); x[j] = (i64)(r.chance(1, 2) ? r.below(8) : hot[r.below(6)]); }
            int q = 1 + (int)r.below(3);
            for (int j = 0; j < q; j++) p.add(-1, "q", {k, w[j], x[j]});
            if (r.chance(1, 3)) b[2] = (i64)r.size(1200) % (b[1] == K_WT ? 300 : 5000);
            p.add(-1, "build", {k, b[1], b[2], r.chance(1, 2) ? b[3] : r.range(0, 11), (i64)r.below(1u << 30), r.range(0, 7), r.range(0, 2)});
            for (int j = q; j-- > 0;) p.add(-1, "q", {k, w[j], x[j]});
            if (r.chance(1, 4)) p.add(-1, "sweep", {k});
        }
    }
    p.random_sched(r, par);
}
} // namespace
const Property sim::kProperty = {"C11", gen, run};
