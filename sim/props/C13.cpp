// C13: static string dictionaries accept exactly their keys and number them uniquely, for any number of readers.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
enum { K_S32, K_S64, K_LEG, K_D32, K_D64, K_N };
struct Obj {
    int kind = -1;
    std::unique_ptr<Samc<uint32_t>> s32; std::unique_ptr<Samc<uint64_t>> s64; std::unique_ptr<Samc<uint32_t, true>> leg;
    std::unique_ptr<SamcDict<uint32_t>> d32; std::unique_ptr<SamcDict<uint64_t>> d64;
    std::vector<std::string> keys; std::map<std::string, u64> id; std::vector<std::string> by_id;
    bool dict() const { return kind >= K_D32; }
};
Obj obj[2];
u64 g_span = 600;
const u64 kNone = ~0ull;
u64 lookup(const Obj& o, std::string_view q) {   // id, or 1/0 for the plain automata
    switch (o.kind) {
    case K_S32: return ((const Samc<uint32_t>&)*o.s32).accept(q);
    case K_S64: return ((const Samc<uint64_t>&)*o.s64).accept(q);
    case K_LEG: return ((const Samc<uint32_t, true>&)*o.leg).accept(q);
    case K_D32: return ((const SamcDict<uint32_t>&)*o.d32).lookup(q);
    default: return ((const SamcDict<uint64_t>&)*o.d64).lookup(q);
    }
}
void ask(const Obj& o, const std::string& q) {
    bool in = o.id.count(q); std::string buf = q; buf.shrink_to_fit();   // the query ends where its buffer ends
    u64 g = value("lookup", [&] { return lookup(o, std::string_view(buf.data(), buf.size())); });
    if (o.dict()) { u64 w = in ? o.id.find(q)->second : kNone; if (g != w) fail("wrong-answer", "lookup of " + hex(q) + " gives " + (g == kNone ? "absent" : S(g)) + ", expected " + (w == kNone ? "absent" : S(w))); }
    else if (g != (u64)in) fail("wrong-answer", "string " + hex(q) + (g ? " accepted but not a key" : " is a key but rejected"));
}
void restore(const Obj& o, u64 i) {
    if (!o.dict() || o.by_id.empty()) return; i %= o.by_id.size();
    std::string s = value("access", [&] { return o.kind == K_D32 ? ((const SamcDict<uint32_t>&)*o.d32).access(i) : ((const SamcDict<uint64_t>&)*o.d64).access(i); });
    if (s != o.by_id[i]) fail("wrong-answer", "access(" + S(i) + ") restores " + hex(s) + ", expected " + hex(o.by_id[i]));
}
std::string variant(const Obj& o, i64 how, i64 x) {
    Rng r((u64)x * 31 + 7); std::string s = o.keys.empty() ? "" : o.keys[(u64)x % o.keys.size()];
    switch (how % 9) {
    case 0: case 1: return s;
    case 2: return s + (char)r.below(256);
    case 3: return s.substr(0, r.below(s.size() + 1));
    case 4: if (!s.empty()) s[r.below(s.size())] = (char)r.below(256); return s;
    case 5: { std::string t = o.keys.empty() ? "a" : o.keys[r.below(o.keys.size())]; u64 k = r.below(s.size() + 1); return s.substr(0, k) + (k < t.size() ? t.substr(k) : ""); }   // tail of another key
    case 6: return s + std::string(1 + r.below(3), '\0');
    case 7: return s + s;
    default: { u64 n = r.below(12); std::string t; while (t.size() < n) t += (char)(r.chance(1, 2) && !s.empty() ? s[r.below(s.size())] : (char)r.below(256)); return t; }
    }
}
// puts a freshly built structure into its place: a new object, or assigned into the one that is there
template <class T> void put(std::unique_ptr<T>& slot, T* fresh, i64 into) {
    if (!slot || into % 3 == 0) { slot.reset(); slot.reset(fresh); return; }
    if (into % 3 == 1) *slot = std::move(*fresh); else { const T& c = *fresh; *slot = c; }
    delete fresh; Unscope u; probe("assigned_into_used_object");
}
template <class It> void create(Obj& o, It b, It e, i64 into) {
    switch (o.kind) {
    case K_S32: put(o.s32, new Samc<uint32_t>(b, e), into); break;
    case K_S64: put(o.s64, new Samc<uint64_t>(b, e), into); break;
    case K_LEG: put(o.leg, new Samc<uint32_t, true>(b, e), into); break;
    case K_D32: put(o.d32, new SamcDict<uint32_t>(b, e), into); break;
    default: put(o.d64, new SamcDict<uint64_t>(b, e), into); break;
    }
}
void build(Obj& o, const Op& op) {
    i64 into = op.arg(5); if (into % 3 == 0) o = Obj(); else { o.keys.clear(); o.id.clear(); o.by_id.clear(); }
    o.kind = (int)(op.arg(1) % K_N); u64 n = (u64)op.arg(2) % g_span, seed = (u64)op.arg(3); Rng r(seed); i64 alpha = (i64)r.below(7), shape = (i64)r.below(6); u64 mx = r.one_of<u64>({1, 3, 8, 20, 70}), lg = (u64)op.arg(6); if (lg) { mx = lg; probe("long_keys"); }
    std::set<std::string> s; std::string base = text_of(600 + lg, alpha, shape, seed);
    if (u64 many = o.kind == K_LEG ? 0 : (u64)op.arg(7)) { // nearly all strings of three letters of some alphabet, and a few shorter ones
        u64 A = 2; while (A * A * A < many) A++; int lo = 1 + (int)r.below(254 - A); u64 holes = r.one_of<u64>({0, 0, 40, 4}); probe("tens_of_thousands_of_keys");
        for (u64 a = 0; a < A; a++) for (u64 b = 0; b < A; b++) { if (r.chance(1, 30)) s.insert(std::string{(char)(lo + a), (char)(lo + b)}); for (u64 c = 0; c < A; c++) if (!holes || !r.chance(1, holes)) s.insert(std::string{(char)(lo + a), (char)(lo + b), (char)(lo + c)}); }
        n = 0;
    }
    for (u64 i = 0; i < n; i++) {
        std::string k; u64 how = r.below(4);
        if (how == 0) { u64 a = r.below(500); k = base.substr(a, r.below(mx + 1)); }
        else if (how == 1 && !s.empty()) { auto it = s.lower_bound(base.substr(r.below(500), 2)); if (it == s.end()) it = s.begin(); k = *it + (char)letter(r, alpha); }
        else if (how == 2 && !s.empty()) { auto it = s.begin(); k = it->substr(0, r.below(it->size() + 1)); }
        else { u64 l = r.below(mx + 1); while (k.size() < l) k += (char)letter(r, alpha); }
        if (k.size() > 120 + lg) k.resize(120 + lg);
        s.insert(k);
    }
    if (r.chance(1, 8)) { s.insert(""); probe("empty_key"); } else s.erase("");
    o.keys.assign(s.begin(), s.end()); std::vector<std::string> in = o.keys;
    if (r.chance(1, 6) && !in.empty()) { in.insert(in.begin() + r.below(in.size()), in[0]); std::sort(in.begin(), in.end()); probe("key_given_twice"); }
    if (o.keys.empty()) probe("empty_set");
    must("dictionary construction", [&] { if (op.arg(4) % 3 == 0) create(o, in.begin(), in.end(), into); else if (op.arg(4) % 3 == 1) create(o, s.begin(), s.end(), into); else { std::deque<std::string> d(in.begin(), in.end()); create(o, d.begin(), d.end(), into); } });
    o.by_id.resize(o.dict() ? o.keys.size() : 0); std::vector<bool> used(o.keys.size());
    for (auto& k : o.keys) {
        u64 g = value("lookup", [&] { return lookup(o, k); });
        if (!o.dict()) { if (!g) fail("wrong-answer", "key " + hex(k) + " is rejected"); o.id[k] = 1; continue; }
        if (g >= o.keys.size()) fail("wrong-answer", "key " + hex(k) + (g == kNone ? " is reported absent" : " has number " + S(g) + " of " + S(o.keys.size())));
        if (used[g]) fail("wrong-answer", "two keys have number " + S(g));
        used[g] = true; o.by_id[g] = k; o.id[k] = g;
    }
    for (u64 i = 0; i < o.by_id.size(); i++) restore(o, i);
}
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 60000; large_run(); } else g_span = 600;
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1];
        if (op.name == "build") { build(o, op); return; }
        if (o.kind < 0) return;
        if (op.name == "ask") ask(o, variant(o, op.arg(1), op.arg(2)));
        else if (op.name == "access") restore(o, (u64)op.arg(2));
        else if (op.name == "sweep") {
            for (auto& k : o.keys) { ask(o, k); ask(o, k + "a"); for (size_t i = 0; i < k.size() && i < 6; i++) ask(o, k.substr(0, i)); ask(o, k.substr(0, k.size() - (k.empty() ? 0 : 1))); }
            for (int c = 0; c < 256; c++) { ask(o, std::string(1, (char)c)); if (!o.keys.empty()) ask(o, o.keys[o.keys.size() / 2] + (char)c); }
            for (u64 i = 0; i < o.by_id.size(); i++) restore(o, i);
        }
    });
    if (conflict_seen()) probe("conflicting_accesses_by_readers");
    for (auto& o : obj) o = Obj();
}
void gen(Rng& r, Plan& p, int tier) {
    int objs = 1 + (int)r.chance(1, 3);
    if (r.chance(1, 40)) { // keys of hundreds or thousands of bytes
        i64 lg = r.one_of<i64>({260, 300, 520, 700, 1500}); p.add(-1, "build", {0, r.range(0, K_N - 1), 1 + (i64)r.below(lg > 700 ? 5 : 12), (i64)r.below(1u << 30), r.range(0, 2), 0, lg});
        for (int q = 30; q > 0; q--) p.add(-1, r.chance(1, 4) ? "access" : "ask", {0, r.range(0, 8), (i64)r.below(1 << 12)});
        if (r.chance(1, 2)) p.add(-1, "sweep", {0}); p.random_sched(r, false); return;
    }
    if (r.chance(1, 100)) { // tens of thousands of keys
        p.cfg["large"] = 1; p.add(-1, "build", {0, r.range(0, K_N - 1), 2000 + (i64)r.below(8000), (i64)r.below(1u << 30), r.range(0, 2), 0, 0, r.chance(1, 3) ? 66000 + (i64)r.below(20000) : 0});
        for (int q = 300; q > 0; q--) p.add(-1, r.chance(1, 4) ? "access" : "ask", {0, r.range(0, 8), (i64)r.below(1 << 20)});
        p.random_sched(r, false); return;
    }
    for (int k = 0; k < objs; k++) p.add(-1, "build", {k, r.range(0, K_N - 1), (i64)(r.chance(1, 8) ? r.size(tier ? 500 : 250) : r.size(40)), (i64)r.below(1u << 30), r.range(0, 2)});
    bool par = r.chance(4, 5); int tasks = par ? r.tasks() : 0; i64 hot[4]; for (auto& h : hot) h = (i64)r.below(1 << 12);
    for (int t = 0; t < tasks; t++) for (int q = tasks > 4 ? 1 + (int)r.below(4) : 2 + (int)r.below(tier ? 16 : 9); q > 0; q--)
        p.add(t, r.chance(1, 4) ? "access" : "ask", {(i64)r.below((u64)objs), r.range(0, 8), r.chance(1, 2) ? hot[r.below(4)] : (i64)r.below(1 << 12)});
    if (!par) for (int q = 20; q > 0; q--) p.add(-1, "ask", {(i64)r.below((u64)objs), r.range(0, 8), (i64)r.below(1 << 12)});
    for (int k = 0; k < objs; k++) if (r.chance(1, 2)) p.add(-1, "sweep", {k});
    if (r.chance(1, 4)) for (int g = 1 + (int)r.below(3); g > 0; g--) { // one dictionary after another in the same place
        i64 k = (i64)r.below((u64)objs); auto b = p.ops[(size_t)k].a;
        for (int q = (int)r.below(3); q > 0; q--) p.add(-1, r.chance(1, 4) ? "access" : "ask", {k, r.range(0, 8), (i64)r.below(1 << 12)});
        p.add(-1, "build", {k, b[1], (i64)r.size(30), (i64)r.below(1u << 30), r.range(0, 2), r.range(0, 2)});
        for (int q = 1 + (int)r.below(5); q > 0; q--) p.add(-1, r.chance(1, 4) ? "access" : "ask", {k, r.range(0, 8), (i64)r.below(1 << 12)});
    }
    p.random_sched(r, par);
}
} // namespace
const Property sim::kProperty = {"C13", gen, run};
