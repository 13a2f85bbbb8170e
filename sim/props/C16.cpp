// C16: a build either completes and the result answers by its definition, or it reports lack of memory, releases
// everything, leaves its input alone, and succeeds when repeated.
#include "actors.hpp"
using namespace sim;
using namespace sim_ds;
namespace pm = sim_ds::pattern_matching;

namespace {
struct Job { const char* name = ""; std::function<void()> build, drop, verify; std::function<bool()> same; };
template <class V> std::vector<V> conv(const std::vector<u64>& v) { return std::vector<V>(v.begin(), v.end()); }

template <bool Sel> Job job_succ(u64 n, u64 seed) {
    struct St { BitVector* in = nullptr; std::vector<bool> want; std::unique_ptr<SuccinctBitVector<Sel>> o; ~St() { Scope s; delete in; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); st->want = bits_of(n, (i64)r.below(12), seed); must("bit vector construction", [&] { st->in = new BitVector(st->want); });
    Job j; j.name = "SuccinctBitVector";
    j.build = [st] { st->o.reset(new SuccinctBitVector<Sel>(*(const BitVector*)st->in)); };
    j.drop = [st] { st->o.reset(); };
    j.same = [st] { if (st->in->size() != st->want.size()) return false; for (size_t i = 0; i < st->want.size(); i++) if ((*st->in)[i] != st->want[i]) return false; return true; };
    j.verify = [st] {
        auto& o = *st->o; u64 c = 0; size_t n = st->want.size(); EQ("size", value("size", [&] { return o.size(); }), n);
        for (size_t i = 0; i <= n; i++) { u64 g = value("rank", [&] { return o.rank(i); }); EQ("rank", g, c, "i=" + S(i)); if (i == n) break; EQ("bit", value("access", [&] { return o[i]; }), st->want[i]); if (st->want[i]) { if constexpr (Sel) EQ("select", value("select", [&] { return o.select(c); }), i, "k=" + S(c)); c++; } }
    };
    return j;
}
template <class T> Job job_dac(u64 n, u64 seed, int how) {
    struct St { std::vector<T> in, keep; std::vector<size_t> w; std::unique_ptr<DacVector> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); st->in = conv<T>(ints_of(n, (i64)r.below(10), seed, sizeof(T) * 8 - (std::is_signed_v<T> ? 1 : 0))); st->keep = st->in;
    if (how == 1) { unsigned left = 64, most = r.chance(1, 4) ? 2 : 20; while (left) { unsigned x = 1 + (unsigned)r.below(std::min(left, most)); st->w.push_back(x); left -= x; } }
    Job j; j.name = "DacVector";
    j.build = [st, how] { if (how == 1) st->o.reset(new DacVector((const std::vector<T>&)st->in, st->w)); else st->o.reset(new DacVector((const std::vector<T>&)st->in)); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { auto& o = *st->o; EQ("size", value("size", [&] { return o.size(); }), st->keep.size()); for (size_t i = 0; i < st->keep.size(); i++) EQ("element", value("element", [&] { return o[i]; }), (u64)st->keep[i], "i=" + S(i)); };
    return j;
}
template <class T> Job job_fit(u64 n, u64 seed) {
    struct St { std::vector<T> in, keep; std::unique_ptr<FitVector> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    st->in = conv<T>(ints_of(n, (i64)(seed % 10), seed, sizeof(T) * 8)); st->keep = st->in;
    Job j; j.name = "FitVector"; j.build = [st] { st->o.reset(new FitVector((const std::vector<T>&)st->in)); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { auto& o = *st->o; EQ("size", value("size", [&] { return o.size(); }), st->keep.size()); for (size_t i = 0; i < st->keep.size(); i++) EQ("element", value("element", [&] { return (u64)((const FitVector&)o)[i]; }), (u64)st->keep[i], "i=" + S(i)); };
    return j;
}
template <class T> Job job_wave(u64 n, u64 seed) {
    struct St { std::vector<T> in, keep; std::unique_ptr<WaveletTree> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); u64 lim = r.one_of<u64>({2, 3, 4, 16, 17, 100, 256}); for (u64 i = 0; i < n + 1; i++) st->in.push_back((T)r.below(lim)); st->in[n] = (T)(lim - 1); st->keep = st->in;
    Job j; j.name = "WaveletTree"; j.build = [st] { st->o.reset(new WaveletTree((const std::vector<T>&)st->in)); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { auto& o = *st->o; u64 cnt[256] = {}; EQ("size", value("size", [&] { return o.size(); }), st->keep.size()); for (size_t i = 0; i < st->keep.size(); i++) { u64 s = (u64)st->keep[i]; EQ("symbol", value("symbol", [&] { return (u64)o[i]; }), s, "i=" + S(i)); EQ("rank", value("rank", [&] { return o.rank(i); }), cnt[s]++, "i=" + S(i)); } };
    return j;
}
template <unsigned U> Job job_multi(u64 n, u64 seed) {   // the rank index of a vector that stays in place
    struct St { std::vector<u64> v; MultiBitVector<U>* o = nullptr; bool built = false; ~St() { Scope s; delete o; } }; auto st = std::make_shared<St>();
    Rng r(seed); u64 lim = 1 + r.below(1u << U); for (u64 i = 0; i < n; i++) st->v.push_back(r.below(lim));
    auto fresh = [st] { delete st->o; st->o = nullptr; st->o = new MultiBitVector<U>(); for (size_t i = 0; i < st->v.size(); i++) st->o->set(i, (uint8_t)st->v[i]); };
    Job j; j.name = "MultiBitVector";
    j.build = [st, fresh] { fresh(); st->o->build(); }; j.drop = [st] { delete st->o; st->o = nullptr; };
    j.same = [] { return true; };
    j.verify = [st] { u64 cnt[8] = {}; for (size_t i = 0; i < st->v.size(); i++) { EQ("symbol", value("symbol", [&] { return (u64)(*st->o)[i]; }), st->v[i], "i=" + S(i)); u64 w = cnt[st->v[i]]++; if (st->v[i]) EQ("rank", value("rank", [&] { return (u64)st->o->rank(i); }), w, "i=" + S(i)); } };
    return j;
}
template <class T, bool Dict> Job job_dict(u64 n, u64 seed) {
    struct St { std::vector<std::string> in, keep, q; std::unique_ptr<T> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    st->in = key_set(seed, n + 1, st->q); st->keep = st->in;
    Job j; j.name = Dict ? "SamcDict" : "Samc"; j.build = [st] { st->o.reset(new T(st->in.cbegin(), st->in.cend())); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] {
        const T& o = *st->o; std::set<u64> ids; std::set<std::string> keys(st->keep.begin(), st->keep.end());
        for (auto& q : st->q) {
            bool in = keys.count(q);
            if constexpr (Dict) {
                u64 g = value("lookup", [&] { return o.lookup(q); }); if (!in) { if (g != ~0ull) fail("wrong-answer", "a string never given has a number: " + hex(q)); continue; }
                if (g >= keys.size()) fail("wrong-answer", "key " + hex(q) + " has number " + (g == ~0ull ? "none" : S(g)) + " of " + S(keys.size())); std::string s = value("access", [&] { return o.access(g); }); if (s != q) fail("wrong-answer", "number " + S(g) + " restores " + hex(s) + ", expected " + hex(q)); ids.insert(g);
            } else if (value("accept", [&] { return o.accept(q); }) != in) fail("wrong-answer", "string " + hex(q) + (in ? " is a key but rejected" : " accepted but not a key"));
        }
        if constexpr (Dict) EQ("distinct numbers", ids.size(), keys.size());
    };
    return j;
}
Job job_suffix(u64 n, u64 seed) {
    struct St { std::string in, keep; std::unique_ptr<SuffixArray> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); i64 al = (i64)r.below(7), sh = (i64)r.below(6); if (n > 5000) { al = 1 + al % 5; sh = sh < 2 ? 0 : sh < 4 ? 3 : 5; } st->in = text_of(n, al, sh, seed); if (r.chance(1, 4)) for (u64 k = 1 + r.below(4); k > 0 && n; k--) st->in[r.below(n)] = (char)r.one_of<int>({0, 255, 128, 127, 1}); st->keep = st->in;
    if (r.chance(1, 6) && n <= 5000) { st->in.clear(); u64 w = r.below(6); for (u64 i = 0; st->in.size() < n; i++) st->in += std::string(1 + w, (char)(255 - i % 3)); st->in.resize(n); st->keep = st->in; }
    Job j; j.name = "SuffixArray"; j.build = [st] { st->o.reset(new SuffixArray((const std::string&)st->in)); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] {
        std::ostringstream a, b; std::vector<u64> sa, lcp; size_t n = st->keep.size(); const std::string& t = st->keep;
        if (!n) return;
        must("writing the arrays", [&] { st->o->WriteSA(a); st->o->WriteLCP(b); });
        must("reading the arrays", [&] { std::istringstream x(a.str()), y(b.str()); FitVector f(x), g(y); for (size_t i = 0; i < f.size(); i++) sa.push_back(f[i]); for (size_t i = 0; i < g.size(); i++) lcp.push_back(g[i]); });
        EQ("entries of the suffix array", sa.size(), n); EQ("entries of the common-prefix array", lcp.size(), n);
        std::vector<bool> seen(n); for (size_t i = 0; i < n; i++) { if (sa[i] >= n || seen[sa[i]]) fail("wrong-answer", "suffix array entry " + S(i) + " = " + S(sa[i]) + " of " + S(n) + " is no suffix or listed twice"); seen[sa[i]] = true; }
        auto common = [&](size_t x, size_t y) { size_t l = 0; while (x + l < n && y + l < n && t[x + l] == t[y + l]) l++; return l; };
        for (size_t i = 0; i < n; i++) {
            if (i + 1 == n) { EQ("last common prefix", lcp[i], 0); break; }
            u64 l = common(sa[i], sa[i + 1]); EQ("common prefix", lcp[i], l, "i=" + S(i) + " n=" + S(n));
            size_t x = sa[i] + l, y = sa[i + 1] + l; if (!(x == n || (y < n && (unsigned char)t[x] < (unsigned char)t[y]))) fail("wrong-answer", "suffixes " + S(sa[i]) + " and " + S(sa[i + 1]) + " are listed out of order (places " + S(i) + ", " + S(i + 1) + " of " + S(n) + ")");
        }
        for (size_t i = 0; i < n; i += 1 + n / 40) { EQ("char_at", value("char_at", [&] { return (u64)st->o->char_at(i); }), (unsigned char)t[i]); auto v = value("suffix", [&] { return st->o->suffix(i); }); CHECK(v == std::string_view(t).substr(i), "wrong-answer", "suffix(" + S(i) + ") is another string"); auto u = value("suffix", [&] { return st->o->suffix(i, 3); }); CHECK(u == std::string_view(t).substr(i, 3), "wrong-answer", "suffix(" + S(i) + ",3) is another string"); }
    };
    return j;
}
Job job_oracle(u64 n, u64 seed) {
    struct St { std::string in, keep; std::unique_ptr<FactorOracle> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); st->in = text_of(n % 120, (i64)r.below(7), (i64)r.below(6), seed); st->keep = st->in;
    Job j; j.name = "FactorOracle"; j.build = [st] { st->o.reset(new FactorOracle(st->in.begin(), st->in.end())); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { const std::string& t = st->keep; u64 n = t.size(); for (u64 a = 0; a < n; a += 1 + n / 20) for (u64 l = 0; a + l <= n; l += 1 + l / 6) if (!value("accept", [&] { return st->o->accept(std::string_view(t).substr(a, l)); })) fail("wrong-answer", "a factor of the text is rejected"); if (value("accept", [&] { return st->o->accept(t + "x"); })) fail("wrong-answer", "a string longer than the text is accepted"); };
    return j;
}
template <class T> Job job_search(const char* name, u64 n, u64 seed) {
    struct St { std::string in, keep; std::vector<std::string> t; std::unique_ptr<T> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>();
    Rng r(seed); i64 alpha = (i64)r.below(4); st->in = text_of(1 + n % 30, alpha, (i64)r.below(6), seed); st->keep = st->in;
    for (int k = 0; k < 3; k++) { std::string t; while (t.size() < 60) { t += st->in.substr(0, 1 + r.below(st->in.size())); if (r.chance(1, 3)) t += st->in; if (r.chance(1, 3)) t += (char)letter(r, alpha); } st->t.push_back(t); }
    Job j; j.name = name; j.build = [st] { st->o.reset(new T((const std::string&)st->in)); };
    j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st, name] { for (auto& t : st->t) { std::vector<size_t> w; for (size_t i = 0; i + st->keep.size() <= t.size(); i++) if (!t.compare(i, st->keep.size(), st->keep)) w.push_back(i); std::vector<size_t> g; must("search", [&] { g = ((const T&)*st->o).find_all(t); }); CHECK(g == w, "wrong-answer", std::string(name) + " reports other positions than the pattern occurs at"); } };
    return j;
}
Job job_bits(u64 n, u64 seed) {
    struct St { std::vector<bool> in, keep; std::unique_ptr<BitVector> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>(); st->in = bits_of(n, (i64)(seed % 12), seed); st->keep = st->in;
    Job j; j.name = "BitVector"; j.build = [st] { st->o.reset(new BitVector((const std::vector<bool>&)st->in)); }; j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { EQ("size", value("size", [&] { return st->o->size(); }), st->keep.size()); for (size_t i = 0; i < st->keep.size(); i++) EQ("bit", value("bit", [&] { return (bool)((const BitVector&)*st->o)[i]; }), st->keep[i]); };
    return j;
}
Job job_array(u64 n, u64 seed) {
    struct St { std::vector<u64> in, keep; std::unique_ptr<CDRWArray> o; ~St() { Scope s; o.reset(); } }; auto st = std::make_shared<St>(); st->in = ints_of(n % 300, (i64)(seed % 10), seed); st->keep = st->in;
    Job j; j.name = "CDRWArray"; j.build = [st] { st->o.reset(new CDRWArray(st->in.cbegin(), st->in.cend())); }; j.drop = [st] { st->o.reset(); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { for (size_t i = 0; i < st->keep.size(); i++) EQ("element", value("element", [&] { return st->o->get(i); }), st->keep[i], "i=" + S(i)); };
    return j;
}
Job job_split(u64 n, u64 seed) {     // the layer split of the variable-length vector
    struct St { std::vector<u64> in, keep; std::vector<size_t> out; bool on = false; ~St() { Scope s; std::vector<size_t>().swap(out); } }; auto st = std::make_shared<St>(); st->in = ints_of(1 + n, (i64)(seed % 10), seed); st->keep = st->in;
    Job j; j.name = "layer split"; j.build = [st] { try { calc::split_positions_optimized_for_dac((const std::vector<u64>&)st->in, &st->out); } catch (...) { std::vector<size_t>().swap(st->out); throw; } };
    j.drop = [st] { std::vector<size_t>().swap(st->out); }; j.same = [st] { return st->in == st->keep; };
    j.verify = [st] { u64 mx = 0, sum = 0; for (u64 x : st->keep) mx = std::max(mx, x); for (auto w : st->out) sum += w; unsigned need = 1; while (need < 64 && mx >> need) need++; if (sum < need || st->out.size() > 8) fail("wrong-answer", "layer widths sum to " + S(sum) + " in " + S(st->out.size()) + " layers for values of " + S(need) + " bits"); };
    return j;
}
enum { J_N = 27 };
Job job(int k, u64 n, u64 seed) {
    switch (k % J_N) {
    case 0: return job_succ<true>(n, seed); case 1: return job_succ<false>(n, seed); case 2: return job_dac<u64>(n, seed, 0); case 3: return job_dac<u64>(n, seed, 1); case 4: return job_dac<int>(n, seed, 0);
    case 5: return job_fit<u64>(n, seed); case 6: return job_fit<uint8_t>(n, seed); case 7: return job_wave<uint8_t>(n, seed); case 8: return job_wave<int>(n, seed);
    case 9: return job_multi<1>(n, seed); case 10: return job_multi<2>(n, seed); case 11: return job_multi<3>(n, seed);
    case 12: return job_dict<Samc<uint32_t>, false>(n % 120, seed); case 13: return job_dict<Samc<uint32_t, true>, false>(n % 120, seed); case 14: return job_dict<SamcDict<uint32_t>, true>(n % 120, seed); case 15: return job_dict<SamcDict<uint64_t>, true>(n % 120, seed);
    case 16: return job_oracle(n, seed); case 17: return job_search<pm::Kmp>("Kmp", n, seed); case 18: return job_search<pm::Bm>("Bm", n, seed); case 19: return job_search<pm::Bom>("Bom", n, seed); case 20: return job_search<pm::TurboBom>("TurboBom", n, seed);
    case 21: return job_search<pm::SundayQS>("SundayQS", n, seed); case 22: return job_search<pm::SundayMS>("SundayMS", n, seed); case 23: return job_bits(n, seed); case 24: return job_array(n, seed); case 25: return job_split(n, seed);
    default: return job_suffix(n, seed);
    }
}
void attempt(Job& j, i64 k, bool sticky) {      // one build with its k-th allocation failing
    renew_budget();
    u64 before = heap().live_blocks, mark = heap().allocs; arm_alloc(k, sticky); Out o = sut(j.build); bool fired = alloc_fired(); disarm_alloc(); std::string at = std::string(j.name) + ", allocation " + SI(k) + (sticky ? " and all later ones" : "") + " refused: ";
    if (o == Out::ok) { if (fired) probe("allocation_failure_absorbed"); j.verify(); must("destruction", j.drop); }
    else {
        if (!fired || o != Out::bad_alloc) fail("unexpected-exception", at + "the build threw " + out_name(o) + " (" + last_out().what + ")");
        probe("build_failed"); must("destruction", j.drop);
    }
    if (u64 lost = lost_blocks(before, mark)) fail("leak", at + S(lost) + " blocks were not released");
    if (!j.same()) fail("input-changed", at + "the input is no longer what the caller gave");
}
void run(Run& r) {
    Mute mute; large_budget(r.plan); { std::ostringstream os; os << 1.5f << 3; }
    r.drive([&](const Op& op) {
        Job j = job((int)(u64)op.arg(0), (u64)op.arg(1), (u64)op.arg(2)); 
        arm_alloc(i64(1) << 40, false); must(j.name, j.build); u64 total = allocs_since_arm(); disarm_alloc();
        j.verify(); must("destruction", j.drop); CHECK(j.same(), "input-changed", std::string(j.name) + ": the input is no longer what the caller gave"); log("allocations", total);
        u64 before = heap().live_blocks, mark = heap().allocs;
        bool any = false;
        for (auto& f : r.plan.faults) if (f.op == op.id && f.kind == "refuse" && total) { any = true; attempt(j, 1 + (i64)((u64)f.n % total), f.m & 1); }
        if (op.arg(3) & 1) { any = true; u64 step = 1 + total / 60; for (u64 k = 1; k <= total; k += step) attempt(j, (i64)k, (op.arg(3) >> 1) & 1); if (step == 1) probe("every_allocation_refused_once"); }
        if (any) { must(j.name, j.build); j.verify(); must("destruction", j.drop); if (u64 lost = lost_blocks(before, mark)) fail("leak", std::string(j.name) + ": repeated builds keep " + S(lost) + " blocks"); }
    });
}
void gen(Rng& r, Plan& p, int tier) {
    u64 n = 1 + r.below(3);
    if (r.chance(1, 60)) { // far beyond 64 K elements
        p.cfg["large"] = 1; i64 k = r.one_of<i64>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 23, 25, 26, 26}); bool bits = k <= 1 || k == 23; bool slow = k == 7 || k == 8 || k == 26;
        auto& o = p.add(-1, "build", {k, 30000 + (i64)r.below(bits ? 400000 : slow ? 50000 : 100000), (i64)r.below(1u << 30), 0}); p.fault(o.id, "refuse", (i64)r.below(1u << 20), r.range(0, 1));
        p.random_sched(r, false); return;
    }
    for (u64 i = 0; i < n; i++) {
        i64 k = r.chance(1, 4) ? 26 : r.range(0, J_N - 1); u64 z = r.size(k == 26 ? r.one_of<u64>({12, 60, tier ? 400u : 200u}) : r.one_of<u64>({8, 70, 300, tier ? 4000u : 1100u}));
        bool sweep = z < 200 && r.chance(1, 4); auto& o = p.add(-1, "build", {k, (i64)z, (i64)r.below(1u << 30), sweep ? 1 + 2 * (i64)r.below(2) : 0}); int id = o.id;
        if (!sweep) for (u64 q = r.below(5); q > 0; q--) p.fault(id, "refuse", (i64)(r.chance(1, 2) ? r.below(8) : r.below(1u << 20)), r.range(0, 1));
    }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C16", gen, run};
