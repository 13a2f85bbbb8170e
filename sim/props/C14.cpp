// C14: every substring search reports exactly the occurrences; the factor oracle accepts every factor; searchers may be shared.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace sim;
using namespace sim_ds;
namespace pm = sim_ds::pattern_matching;

namespace {
enum { M_SIMPLE, M_KMP, M_BM, M_BOM, M_TURBO, M_QS, M_MS, M_ORACLE, M_N };
struct Obj {
    int kind = -1;
    std::unique_ptr<pm::Simple> simple; std::unique_ptr<pm::Kmp> kmp; std::unique_ptr<pm::Bm> bm; std::unique_ptr<pm::Bom> bom; std::unique_ptr<pm::TurboBom> turbo; std::unique_ptr<pm::SundayQS> qs; std::unique_ptr<pm::SundayMS> ms;
    std::unique_ptr<FactorOracle> oracle;
    std::unique_ptr<char[]> hold; std::string key;       // hold: the buffer the searcher's key is a view into
    std::map<std::string, std::pair<bool, u64>> said;    // oracle: answers given before the concurrent part
    std::map<std::string, std::pair<bool, u64>> said_q;
};
Obj obj[2];
std::vector<size_t> search(const Obj& o, std::string_view t) {
    switch (o.kind) {
    case M_SIMPLE: return ((const pm::Simple&)*o.simple).find_all(t);
    case M_KMP: return ((const pm::Kmp&)*o.kmp).find_all(t);
    case M_BM: return ((const pm::Bm&)*o.bm).find_all(t);
    case M_BOM: return ((const pm::Bom&)*o.bom).find_all(t);
    case M_TURBO: return ((const pm::TurboBom&)*o.turbo).find_all(t);
    case M_QS: return ((const pm::SundayQS&)*o.qs).find_all(t);
    default: return ((const pm::SundayMS&)*o.ms).find_all(t);
    }
}
std::vector<size_t> once(int kind, std::string_view t, std::string_view k) {
    switch (kind) {
    case M_SIMPLE: return pm::PatternMatchSimple(t, k); case M_KMP: return pm::PatternMatchKMP(t, k); case M_BM: return pm::PatternMatchBM(t, k); case M_BOM: return pm::PatternMatchBOM(t, k);
    case M_TURBO: return pm::PatternMatchTurboBOM(t, k); case M_QS: return pm::PatternMatchSundayQS(t, k); default: return pm::PatternMatchSundayMS(t, k);
    }
}
std::string text_for(const Plan& p, const Obj& o, i64 id) {
    Rng r((u64)p.get("seed2") * 911 + (u64)id); i64 alpha = p.get("alpha"), shape = p.get("shape"); u64 mx = (u64)p.get("text", 50); u64 n = r.chance(1, 8) ? r.below(o.key.size() + 2) : r.below(mx + 1); if (o.key.size() > 60000 && r.chance(2, 3)) n = std::max<u64>(n, o.key.size() + r.below(mx / 2)); // room for an occurrence
    std::string t = text_of(n, alpha, r.chance(2, 3) ? shape : (i64)r.below(6), r.next());
    switch (r.below(5)) {
    case 0: break;
    case 1: { std::string s; while (s.size() < n) { s += o.key.substr(0, 1 + r.below(o.key.size())); if (r.chance(1, 3)) s += o.key; if (r.chance(1, 6)) s += (char)letter(r, alpha); } t = s.substr(0, n); break; }      // prefixes of the key
    case 2: { std::string s; while (s.size() < n) { s += o.key.substr(r.below(o.key.size())); if (r.chance(1, 6)) s += (char)letter(r, alpha); } t = s.substr(0, n); break; }                                     // suffixes of the key
    case 3: { std::string s; while (s.size() < n) { std::string k = o.key; if (r.chance(1, 2)) k[r.below(k.size())] = (char)letter(r, alpha); s += k; } t = s.substr(0, n); break; }                            // near misses
    case 4: t += o.key; if (r.chance(1, 2)) t = o.key + t; break;
    }
    if (p.get("nul")) for (auto& c : t) if (c == o.key[0] && r.chance(1, 3)) c = 0;
    if (t.size() > 4000 && !p.get("large")) t.resize(4000);
    return t;
}
struct Exact { std::unique_ptr<char[]> m; size_t n, off; Exact(const std::string& s, Rng& r) : n(s.size()), off(0) { m.reset(new char[n ? n : 1]); memcpy(m.get(), s.data(), n); } std::string_view view() const { return std::string_view(m.get() + off, n); } };
void compare(const std::vector<size_t>& got, const std::string& t, const std::string& k) {
    std::vector<size_t> want;
    if (k.size() < 2000) { for (size_t i = 0; i + k.size() <= t.size(); i++) if (!memcmp(t.data() + i, k.data(), k.size())) want.push_back(i); }
    else { // longest prefix of the pattern at every place (Z function), for periodic inputs
        std::string s = k + t; size_t n = s.size(), m = k.size(), l = 0, e = 0; std::vector<size_t> z(n, 0); z[0] = n;
        for (size_t i = 1; i < n; i++) { size_t x = i < e ? std::min(e - i, z[i - l]) : 0; while (i + x < n && s[x] == s[i + x]) x++; z[i] = x; if (i + x > e) l = i, e = i + x; if (i >= m && x >= m) want.push_back(i - m); }
    }
    if (got != want) {
        size_t j = 0; while (j < got.size() && j < want.size() && got[j] == want[j]) j++;
        fail("wrong-answer", "pattern " + hex(k, 60) + " in a text of " + S(t.size()) + (t.size() <= 60 ? " (" + hex(t, 60) + ")" : "") + ": " + S(got.size()) + " positions reported, " + S(want.size()) + " occur; first difference at report " + S(j) + (j < got.size() ? " = " + S(got[j]) : " (missing)") + (j < want.size() ? ", expected " + S(want[j]) : ", none expected"));
    }
    if (want.size() > 1) probe("several_occurrences");
}
std::string probe_string(const Plan& p, const Obj& o, i64 id) {
    Rng r((u64)p.get("seed2") * 313 + (u64)id); const std::string& t = o.key; u64 n = t.size();
    switch (r.below(6)) {
    case 0: case 1: { u64 a = r.below(n + 1); return t.substr(a, r.below(n - a + 1)); }      // a factor
    case 2: { std::string s = t + (char)r.below(256); return s; }                             // longer than the text
    case 3: { std::string s = t; if (!s.empty()) s[r.below(s.size())] ^= (char)(1 + r.below(255)); return s; } // same length, different
    case 4: { u64 a = r.below(n + 1); std::string s = t.substr(a, r.below(n - a + 1)) + (char)letter(r, p.get("alpha")); return s; }
    default: return text_of(r.below(20), p.get("alpha"), p.get("shape"), r.next());
    }
}
void ask_oracle(Obj& o, const std::string& s, bool remember) {
    Rng q(s.size()); Exact e(s, q); bool a = false, b = false; u64 pos = 0; const FactorOracle& fo = *o.oracle;
    must("accept", [&] { a = fo.accept(e.view()); FactorOracleExproler x(e.view()); b = fo.accept(x); pos = x.pos(); });
    EQ("accept with an explorer", b, a);
    if (o.key.find(s) != std::string::npos) { if (!a) fail("wrong-answer", "the oracle of " + hex(o.key, 60) + " rejects its factor " + hex(s, 60)); EQ("position after acceptance", pos, s.size()); }
    else if (s.size() >= o.key.size() && a) fail("wrong-answer", "the oracle of " + hex(o.key, 60) + " accepts " + hex(s, 60) + ", which is not shorter and not its text");
    if (!a) { if (pos >= s.size()) fail("wrong-answer", "rejected, but the reported position " + S(pos) + " is the end"); bool pre = value("accept", [&] { return fo.accept(std::string_view(s).substr(0, pos)); }); if (!pre) fail("wrong-answer", "the oracle accepted the first " + S(pos) + " characters of a string but rejects them alone"); }
    if (remember) o.said[s] = {a, pos};
    else { auto it = o.said.find(s); if (it != o.said.end() && it->second != std::make_pair(a, pos)) fail("wrong-answer", "the oracle answers differently for the same string " + hex(s, 60)); }
}
void build(const Plan& p, Obj& o, const Op& op) {
    o = Obj(); o.kind = (int)(op.arg(1) % M_N); Rng r((u64)op.arg(3)); u64 n = (u64)op.arg(2) % (p.get("large") ? 200000 : 2000); if (o.kind != M_ORACLE && n == 0) n = 1;
    std::string k = text_of(n, p.get("alpha"), p.get("shape"), (u64)op.arg(3));
    if (op.arg(5)) { std::string u; u64 l = r.one_of<u64>({1, 2, 3, 7, 20, 60, 300, 5000}); while (u.size() < l) u += (char)letter(r, p.get("alpha")); for (u64 i = 0; i < n; i++) k[i] = u[i % l]; if (r.chance(1, 2)) for (u64 i = 1 + r.below(2); i > 0; i--) k[r.chance(1, 2) ? n - 1 - r.below(n / 8 + 1) : r.below(n)] = (char)letter(r, p.get("alpha")); probe("long_periodic_pattern"); }
    else if (r.chance(1, 6) || p.get("nul")) for (u64 i = r.below(3); i > 0 && !k.empty(); i--) k[r.below(k.size())] = (char)r.one_of<int>({0, 255, 128, 127, 1});
    o.key = k;
    // the key is a view into a larger buffer whose other bytes would extend it, or ends exactly at the buffer's end
    bool ext = r.chance(1, 2); size_t pad = ext ? 3 : 0; o.hold.reset(new char[n + 2 * pad + 1]); for (size_t i = 0; i < pad; i++) o.hold[i] = n ? k[i % n] : 'x', o.hold[pad + n + i] = n ? k[i % n] : 'x';
    char* base = o.hold.get(); if (!ext) { o.hold.reset(new char[n ? n : 1]); base = o.hold.get(); } memcpy(base + pad, k.data(), n); std::string_view v(base + pad, n);
    i64 how = op.arg(4); if (o.kind == M_MS && n > 100 && !p.get("large")) step_budget(2000000000);
    must("searcher construction", [&] {
        switch (o.kind) {
        case M_SIMPLE: o.simple.reset(new pm::Simple(v)); break; case M_KMP: o.kmp.reset(new pm::Kmp(v)); break; case M_BM: o.bm.reset(new pm::Bm(v)); break; case M_BOM: o.bom.reset(new pm::Bom(v)); break;
        case M_TURBO: o.turbo.reset(new pm::TurboBom(v)); break; case M_QS: o.qs.reset(new pm::SundayQS(v)); break; case M_MS: o.ms.reset(new pm::SundayMS(v)); break;
        default: if (how % 3 == 0) o.oracle.reset(new FactorOracle(o.key)); else if (how % 3 == 1) o.oracle.reset(new FactorOracle(o.key.begin(), o.key.end())); else o.oracle.reset(new FactorOracle(v.begin(), v.end()));
        }
    });
    if (o.kind == M_ORACLE) { for (i64 i = 0; i < 12; i++) ask_oracle(o, probe_string(p, o, i), true); u64 full = o.key.size(); if (full < 60) for (u64 a = 0; a < full; a++) for (u64 l = 0; a + l <= full; l += 1 + l / 8) ask_oracle(o, o.key.substr(a, l), true); }
}
void run(Run& r) {
    const Plan& p = r.plan; if (p.get("large")) { large_run(); step_budget(8000000000ull); }
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1];
        if (op.name == "build") { build(p, o, op); return; }
        if (o.kind < 0) return;
        if (op.name == "ask") {
            if (o.kind == M_ORACLE) { ask_oracle(o, probe_string(p, o, op.arg(1)), false); return; }
            std::string t = text_for(p, o, op.arg(1)); Rng q(1); Exact e(t, q); std::vector<size_t> got; bool oneshot = op.arg(2) % 5 == 4; r.arm(op);
            Out out = sut([&] { got = oneshot ? once(o.kind, e.view(), o.key) : search(o, e.view()); }); bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "search threw " + last_out().what); probe("search_without_memory"); return; }
            compare(got, t, o.key);
        }
    });
    if (conflict_seen()) probe("conflicting_accesses_by_readers");
    for (auto& o : obj) o = Obj();
}
void gen(Rng& r, Plan& p, int tier) {
    p.cfg["alpha"] = r.one_of<i64>({0, 1, 1, 2, 2, 3, 4, 5, 6}); p.cfg["shape"] = r.range(0, 5); p.cfg["seed2"] = (i64)r.below(1u << 20); p.cfg["text"] = r.one_of<i64>({12, 40, 40, 120, 300}); p.cfg["nul"] = r.chance(1, 8);
    if (r.chance(1, 160)) { // texts, patterns and automata beyond 64 K characters
        p.cfg["large"] = 1; p.cfg["alpha"] = r.range(3, 5); p.cfg["shape"] = r.one_of<i64>({0, 4, 5}); p.cfg["text"] = 66000 + (i64)r.below(100000); i64 kind = r.one_of<i64>({M_SIMPLE, M_KMP, M_KMP, M_BM, M_BOM, M_BOM, M_TURBO, M_TURBO, M_QS, M_MS, M_ORACLE, M_ORACLE});
        if ((kind == M_KMP || kind == M_TURBO) && r.chance(2, 3)) { // a long pattern that overlaps itself
            i64 n = 33000 + (i64)r.below(60000); if (kind == M_TURBO) n = r.chance(7, 8) ? 3000 + (i64)r.below(4000) : 33000 + (i64)r.below(2000); // quadratic on such patterns
            p.cfg["text"] = 2 * n + (i64)r.below(60000); p.cfg["alpha"] = r.range(1, 5);
            p.add(-1, "build", {0, kind, n, (i64)r.below(1u << 30), 0, 1}); for (int q = 6; q > 0; q--) p.add(-1, "ask", {0, (i64)r.below(1 << 12), r.range(0, 4)});
            p.random_sched(r, false); return;
        }
        p.add(-1, "build", {0, kind, kind == M_ORACLE || kind == M_BOM || (kind != M_MS && r.chance(1, 3)) ? 65000 + (i64)r.below(20000) : (i64)r.size(300), (i64)r.below(1u << 30), r.range(0, 2)});
        for (int q = 4; q > 0; q--) p.add(-1, "ask", {0, (i64)r.below(1 << 12), r.range(0, 4)});
        p.random_sched(r, false); return;
    }
    if (r.chance(1, 40)) { // patterns of hundreds of letters
        i64 kind = r.range(0, M_N - 1); p.cfg["text"] = 1200 + (i64)r.below(2600); p.cfg["alpha"] = r.range(kind == M_MS ? 3 : 1, 5); if (kind == M_MS) p.cfg["shape"] = r.one_of<i64>({0, 4, 5}); // its construction is cubic on periodic patterns
        p.add(-1, "build", {0, kind, 200 + (i64)r.below(kind == M_MS ? 80 : r.chance(1, 2) ? 200 : 1100), (i64)r.below(1u << 30), r.range(0, 2), kind == M_MS ? 0 : r.range(0, 1)}); for (int q = 8; q > 0; q--) p.add(-1, "ask", {0, (i64)r.below(1 << 12), r.range(0, 4)});
        p.random_sched(r, false); return;
    }
    int objs = 1 + (int)r.chance(1, 3);
    for (int k = 0; k < objs; k++) { i64 kind = r.range(0, M_N - 1); p.add(-1, "build", {k, kind, (i64)(kind == M_ORACLE ? r.size(r.chance(1, 6) ? (tier ? 900 : 400) : 40) : r.size(r.chance(1, 5) ? 60 : 10)), (i64)r.below(1u << 30), r.range(0, 2)}); }
    bool par = r.chance(3, 4); int tasks = par ? r.tasks() : 0; i64 hot[3]; for (auto& h : hot) h = (i64)r.below(1 << 12);
    for (int t = 0; t < tasks; t++) for (int q = 1 + (int)r.below(tasks > 4 ? 2 : tier ? 10 : 6); q > 0; q--) { auto& o = p.add(t, "ask", {(i64)r.below((u64)objs), r.chance(1, 2) ? hot[r.below(3)] : (i64)r.below(1 << 12), r.range(0, 4)}); if (r.chance(1, 20)) p.fault(o.id, "alloc", r.range(1, 4), r.chance(1, 3)); }
    for (int q = par ? 6 : 24; q > 0; q--) p.add(-1, "ask", {(i64)r.below((u64)objs), (i64)r.below(1 << 12), r.range(0, 4)});
    if (r.chance(1, 6)) for (int g = 1 + (int)r.below(3); g > 0; g--) { // one searcher after another
        i64 k = (i64)r.below((u64)objs), x = (i64)r.below(1 << 12), how = r.range(0, 4); auto b = p.ops[(size_t)k].a;
        p.add(-1, "ask", {k, x, how}); p.add(-1, "build", {k, b[1], r.chance(2, 3) ? b[2] : (i64)r.size(40), (i64)r.below(1u << 30), r.range(0, 2)}); p.add(-1, "ask", {k, x, how});
    }
    p.random_sched(r, par);
}
} // namespace
const Property sim::kProperty = {"C14", gen, run};
