// C05: the compact hash table is a map through any history, growth and memory exhaustion.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/CHT.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
// An identity permutation: lets the generated keys choose bucket and quotient directly.
struct PlainHash {
    explicit PlainHash(unsigned = 64) {}
    uint64_t hash(uint64_t x) const { return x; }
    uint64_t ihash(uint64_t x) const { return x; }
};
struct Table {
    virtual ~Table() {}
    virtual void set(u64 k, u64 v) = 0;
    virtual void erase(u64 k) = 0;
    virtual std::pair<bool, u64> get(u64 k) const = 0;
    virtual void reserve(u64 n) = 0;
    virtual u64 size() const = 0;
    virtual u64 bucket() const = 0;
    virtual Table* copy() const = 0;
    virtual Table* steal() = 0;
    virtual void assign(const Table& o) = 0;
    virtual void assign_move(Table& o) = 0;
};
template <class C> struct Box : Table {
    C c;
    template <class... A> explicit Box(A&&... a) : c(std::forward<A>(a)...) {}
    void set(u64 k, u64 v) override { c.set(k, v); }
    void erase(u64 k) override { c.erase(k); }
    std::pair<bool, u64> get(u64 k) const override { auto r = c.get(k); return {r.first, r.second}; }
    void reserve(u64 n) override { c.reserve(n); }
    u64 size() const override { return c.size(); }
    u64 bucket() const override { return c.bucket(); }
    Table* copy() const override { return new Box(c); }
    Table* steal() override { return new Box(std::move(c)); }
    void assign(const Table& o) override { c = static_cast<const Box&>(o).c; }
    void assign_move(Table& o) override { c = std::move(static_cast<Box&>(o).c); }
};
struct Obj {
    std::unique_ptr<Table> t;
    int type = -1; unsigned kb = 0, vb = 0; bool lost = false;
    std::map<u64, u64> m;
    std::set<u64> touched;
};
Obj obj[2];

u64 key_of(const Obj& o, const Plan& p, u64 i) {
    u64 mask = o.kb >= 64 ? ~0ull : (1ull << o.kb) - 1;
    Rng r((u64)p.get("keyseed") * 1000003 + i);
    switch (p.get("keys")) {
    case 0: return r.next() & mask;
    case 1: return i & mask;
    case 2: return (i << 8 | (i % 3)) & mask;                        // same low bits: one long run
    case 3: return ((i % 5) | (i / 5) << (o.kb > 8 ? o.kb - 6 : 1)) & mask;
    case 4: return (mask - i) & mask;                                 // highest keys, last buckets (wrap around)
    default: return ((r.next() << 5) | (29 + r.below(4))) & mask;     // neighbouring buckets
    }
}
void compare(Obj& o, const char* when) {
    if (!o.t || o.lost) return;
    EQ("size", value("size", [&] { return o.t->size(); }), o.m.size(), when);
    for (u64 k : o.touched) {
        auto g = value("get", [&] { return o.t->get(k); });
        auto it = o.m.find(k);
        if (g.first != (it != o.m.end())) fail("wrong-answer", std::string(when) + ": key " + S(k) + (g.first ? " found but was never set or is removed" : " is lost"));
        if (g.first) EQ("value", g.second, it->second, std::string(when) + " key=" + S(k));
    }
}
template <class C, bool Var> Table* make(unsigned kb, unsigned vb, u64 buckets, bool dflt) {
    Box<C>* b = dflt ? new Box<C>(kb) : new Box<C>(kb, (size_t)buckets);
    if constexpr (Var) { try { b->c.set_value_width(vb); } catch (...) { delete b; throw; } }
    return b;
}
// a table of more bits than 32-bit numbers reach
void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); u64 buckets = 1ull << (20 + (u64)op.arg(1) % 8); unsigned kb = 40 + (unsigned)op.arg(2) % 25; u64 mask = kb >= 64 ? ~0ull : (1ull << kb) - 1;
    Obj o; o.kb = kb; must("construction", [&] { o.t.reset(make<CHT<64>, false>(kb, 64, buckets, false)); });
    std::vector<u64> keys; for (int i = 0; i < 300; i++) { u64 k = q.next() & mask; keys.push_back(k); o.touched.insert(k); o.touched.insert((k + 1) & mask); o.touched.insert(k ^ 1); }
    for (u64 k : keys) { u64 v = q.next(); must("set", [&] { o.t->set(k, v); }); o.m[k] = v; }
    compare(o, "huge table, after insertions");
    for (int i = 0; i < 200; i++) { u64 k = q.pick(keys); if (q.chance(1, 2)) { must("erase", [&] { o.t->erase(k); }); o.m.erase(k); } else { u64 v = q.next(); must("set", [&] { o.t->set(k, v); }); o.m[k] = v; } }
    compare(o, "huge table, after removals"); EQ("bucket", value("bucket", [&] { return o.t->bucket(); }), buckets); probe("beyond_32_bits"); o.t.reset();
}
void run(Run& r) {
    const Plan& p = r.plan; if (p.get("large") || p.get("many")) large_run();
    u64 nkeys = (u64)std::max<i64>(1, p.get("nkeys", 40));
    r.drive([&](const Op& op) {
        int s = (int)(op.arg(0) & 1); Obj& o = obj[s];
        if (op.name == "huge") { huge(op); return; }
        if (op.name == "new") {
            o.t.reset(); o.m.clear(); o.touched.clear(); o.lost = false;
            o.type = (int)(op.arg(1) % 7); o.kb = 1 + (unsigned)(op.arg(2) % 64);
            static const unsigned fixed[7] = {16, 64, 1, 7, 0, 0, 32};
            o.vb = fixed[o.type] ? fixed[o.type] : 1 + (unsigned)(op.arg(3) % 64);
            u64 buckets = 1ull << (op.arg(4) % 7); bool dflt = op.arg(4) >= 7; if (dflt) buckets = 8;
            unsigned kb = o.kb, vb = o.vb;
            r.arm(op);
            Table* t = nullptr;
            Out out = sut([&] {
                switch (o.type) {
                case 0: t = make<CHT<16>, false>(kb, vb, buckets, dflt); break;
                case 1: t = make<CHT<64, 90>, false>(kb, vb, buckets, dflt); break;
                case 2: t = make<CHT<1, 25>, false>(kb, vb, buckets, dflt); break;
                case 3: t = make<CHT<7, 99, PlainHash>, false>(kb, vb, buckets, dflt); break;
                case 4: t = make<CHT<0>, true>(kb, vb, buckets, dflt); break;
                case 5: t = make<CHT<0, 80, PlainHash>, true>(kb, vb, buckets, dflt); break;
                default: t = make<CHT<32, 50, PlainHash>, false>(kb, vb, buckets, dflt); break;
                }
            });
            bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "construction: " + last_out().what);
            if (out == Out::ok) o.t.reset(t);
            if (o.kb > 60) probe("wide_keys");
            if (buckets == 1) probe("one_bucket");
            return;
        }
        if (!o.t || (o.lost && op.name != "copy")) return;
        u64 vmask = o.vb >= 64 ? ~0ull : (1ull << o.vb) - 1;
        if (op.name == "bulk") { // many keys in a row: set, or remove every other one
            u64 first = (u64)op.arg(1), n = (u64)op.arg(2); bool rem = op.arg(3) & 1;
            std::vector<std::pair<u64, u64>> kv; for (u64 i = 0; i < n; i++) { u64 k = key_of(o, p, first + i); kv.push_back({k, (k * 0x9e3779b97f4a7c15ull >> 7) & vmask}); }
            r.arm(op); size_t done = 0;
            Out out = sut([&] { for (; done < kv.size(); done++) { if (rem) { if (done & 1) o.t->erase(kv[done].first); } else o.t->set(kv[done].first, kv[done].second); } });
            bool f = alloc_fired(); disarm_alloc(); CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "bulk threw " + last_out().what);
            for (size_t i = 0; i < kv.size(); i++) { o.touched.insert(kv[i].first); if (i < done) { if (rem) { if (i & 1) o.m.erase(kv[i].first); } else o.m[kv[i].first] = kv[i].second; } }
            compare(o, "after many operations"); if (o.m.size() > 65536) probe("large_table"); return;
        }
        if (op.name == "churn") { // thousands of operations on a table that stays small
            Rng q((u64)op.arg(2)); u64 w = 1 + q.below(std::min<u64>(nkeys, 60)), base = q.below(nkeys), ins = 1 + q.below(3);
            for (u64 k = (u64)op.arg(1); k > 0; k--) {
                u64 key = key_of(o, p, (base + q.below(w)) % nkeys); o.touched.insert(key);
                if (q.below(4) < ins) { u64 v = q.next() & vmask; must("set", [&] { o.t->set(key, v); }); o.m[key] = v; } else { must("erase", [&] { o.t->erase(key); }); o.m.erase(key); }
                key = key_of(o, p, (base + q.below(w)) % nkeys); auto it = o.m.find(key); auto g = value("get", [&] { return o.t->get(key); });
                if (g.first != (it != o.m.end()) || (g.first && g.second != it->second)) fail("wrong-answer", "many operations: key " + S(key) + (g.first ? it == o.m.end() ? " is found but was never set or is removed" : " reads " + S(g.second) + ", last set " + S(it->second) : std::string(" is lost")));
                if (k % 97 == 0) EQ("size", value("size", [&] { return o.t->size(); }), o.m.size(), "many operations");
            }
            compare(o, "after thousands of operations"); probe("thousands_of_operations"); return;
        }
        u64 key = key_of(o, p, (u64)op.arg(1) % nkeys);
        if (op.name == "set") {
            u64 v = (u64)op.arg(2) * 0x9e3779b97f4a7c15ull & vmask; if (op.arg(2) % 5 == 0) v = vmask; if (op.arg(2) % 7 == 0) v = 0;
            u64 b0 = o.t->bucket(); o.touched.insert(key);
            r.arm(op); Out out = sut([&] { o.t->set(key, v); }); bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) { o.m[key] = v; auto g = value("get", [&] { return o.t->get(key); }); if (!g.first || g.second != v) fail("wrong-answer", "a key just set reads otherwise"); if (o.t->bucket() > b0) probe("grown"); }
            else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "set threw " + std::string(out_name(out)) + " " + last_out().what); probe("set_failed"); compare(o, "after a failed set"); }
        } else if (op.name == "erase") {
            u64 b0 = o.t->bucket(); o.touched.insert(key);
            r.arm(op); Out out = sut([&] { o.t->erase(key); }); bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) { if (o.m.erase(key)) probe("erased"); if (value("get", [&] { return o.t->get(key); }).first) fail("wrong-answer", "a key just removed is still found"); if (o.t->bucket() < b0) probe("shrunk"); }
            else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "erase threw " + std::string(out_name(out)) + " " + last_out().what); probe("erase_failed"); compare(o, "after a failed erase"); }
        } else if (op.name == "get") {
            o.touched.insert(key); auto g = value("get", [&] { return o.t->get(key); }); auto it = o.m.find(key);
            if (g.first != (it != o.m.end())) fail("wrong-answer", "key " + S(key) + (g.first ? " found but was never set or is removed" : " is lost"));
            if (g.first) EQ("value", g.second, it->second, "key=" + S(key));
        } else if (op.name == "reserve") {
            u64 n = (u64)op.arg(1) % 300;
            r.arm(op); Out out = sut([&] { o.t->reserve(n); }); bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "reserve threw"); compare(o, out == Out::ok ? "after reserve" : "after a failed reserve");
        } else if (op.name == "copy") {
            Obj& d = obj[1 - s]; int how = (int)(op.arg(2) % 4);
            if (o.lost) return;
            if ((how == 1 || how == 3) && (d.type != o.type || !d.t)) how--;
            Table* t = nullptr; r.arm(op);
            Out out = sut([&] { if (how == 0) t = o.t->copy(); else if (how == 1) d.t->assign(*o.t); else if (how == 2) t = o.t->steal(); else d.t->assign_move(*o.t); });
            bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "copy threw");
            if (out != Out::ok) { if (how == 1) d.lost = true; compare(o, "after a failed copy of it"); return; }
            if (t) d.t.reset(t);
            d.type = o.type; d.kb = o.kb; d.vb = o.vb; d.lost = false; d.m = o.m; d.touched = o.touched;
            if (how >= 2) { o.t.reset(); o.m.clear(); o.touched.clear(); }
            compare(d, "after copy or move");
        } else if (op.name == "all") compare(o, "full comparison");
    });
    for (auto& o : obj) { compare(o, "at the end"); o.t.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 2000)) { p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), r.one_of<i64>({5, 6, 6, 7}), r.range(0, 24)}); p.random_sched(r, false); return; }
    p.cfg["keys"] = r.range(0, 5); p.cfg["keyseed"] = (i64)r.below(1000000);
    if (r.chance(1, 250)) { // tens of thousands of entries
        p.cfg["large"] = 1; p.cfg["keys"] = r.one_of<i64>({0, 1, 4}); u64 n = 20000 + r.below(60000); p.cfg["nkeys"] = (i64)n;
        i64 type = r.range(0, 6); if (type == 3) n = 20000 + n % 12000; p.cfg["nkeys"] = (i64)n; if (type == 3 || type >= 5) p.cfg["keys"] = 0; // an identity hash over consecutive keys is one cluster: every step would walk all of it
        p.add(-1, "new", {0, type, r.one_of<int>({16, 19, 23, 31, 47, 63}), r.range(0, 63), r.range(0, 8)});
        p.add(-1, "bulk", {0, 0, (i64)n, 0}); if (r.chance(1, 3)) p.fault(p.ops.back().id, "alloc", r.range(1, 60), 0);
        p.add(-1, "bulk", {0, (i64)r.below(n), (i64)r.below(20000), 1}); p.add(-1, "bulk", {0, (i64)r.below(n), (i64)r.below(9000), 0});
        for (int i = 0; i < 20; i++) p.add(-1, i % 3 ? "get" : i & 1 ? "set" : "erase", {0, (i64)r.below(n), (i64)r.below(1 << 20)});
        if (r.chance(1, 2)) p.add(-1, "copy", {0, 0, r.range(0, 3)});
        p.random_sched(r, false); return;
    }
    u64 nk = r.one_of<u64>({1, 3, 8, 20, 60, 150, 400}); p.cfg["nkeys"] = (i64)nk;
    int kb = (int)r.one_of<int>({0, 1, 3, 7, 8, 15, 31, 59, 60, 61, 62, 63, (int)r.below(64), (int)r.below(64)});
    p.add(-1, "new", {0, r.range(0, 6), kb, r.range(0, 63), r.range(0, 8)});
    u64 n = r.chance(1, 6) ? r.below(tier ? 2500 : 900) : 5 + r.below(nk * 3 + 30);
    int wset = 1 + (int)r.below(6), wer = (int)r.below(6), wget = (int)r.below(3);
    u64 faults = r.chance(1, 3) ? 0 : 1 + r.below(4);
    bool two = r.chance(1, 4);
    if (r.chance(1, 60)) { if (r.chance(1, 20)) p.cfg["many"] = 1; p.add(-1, "churn", {0, p.get("many") ? 66000 + (i64)r.below(9000) : r.chance(1, 2) ? 250 + (i64)r.below(400) : 1000 + (i64)r.below(3000), (i64)r.below(1u << 30)}); }
    for (u64 i = 0; i < n; i++) {
        if (r.chance(1, 200) || (i == n / 2 && r.chance(1, 3))) { wset = 1 + (int)r.below(6); wer = (int)r.below(8); }
        int s = two ? (int)r.below(2) : 0;
        u64 x = r.below((u64)(wset + wer + wget));
        i64 k = (i64)r.below(nk);
        if (r.chance(1, 60)) p.add(-1, "reserve", {s, (i64)r.below(300)});
        else if (r.chance(1, 60)) { p.add(-1, "copy", {s, 0, r.range(0, 3)}); two = true; }
        else if (r.chance(1, 80)) p.add(-1, "all", {s});
        else if (r.chance(1, 200)) p.add(-1, "new", {s, r.range(0, 6), kb, r.range(0, 63), r.range(0, 8)});
        else if (x < (u64)wset) p.add(-1, "set", {s, k, (i64)r.below(1 << 20)});
        else if (x < (u64)(wset + wer)) p.add(-1, "erase", {s, k});
        else p.add(-1, "get", {s, k});
    }
    for (u64 i = 0; i < faults; i++) { auto& o = r.pick(p.ops); p.fault(o.id, r.chance(2, 3) ? "allocw" : "alloc", r.range(1, r.chance(1, 2) ? 4 : 12), r.chance(1, 3)); }
    // aim some faults at operations that allocate (growth): every operation of a stretch
    if (faults && r.chance(1, 3)) { u64 a = r.below(p.ops.size()); for (u64 i = a; i < p.ops.size() && i < a + 40; i++) p.fault(p.ops[i].id, "alloc", r.range(1, 8), 0); }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C05", gen, run};
