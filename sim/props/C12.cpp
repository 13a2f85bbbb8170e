// C12: packed integer sequences return the stored integers to every concurrent reader.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "fields.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
enum { K_FIT_LIST, K_FIT_WIDTH, K_DAC, K_DAC_W, K_MULTI, K_N };
struct Obj {
    int kind = -1;
    std::unique_ptr<FitVector> fit; std::unique_ptr<DacVector> dac; std::unique_ptr<MultipleVector> mv;
    std::vector<u64> v;                  // Fit, Dac
    std::vector<u64> widths;             // explicit dac widths / field byte widths
    std::vector<std::vector<u64>> f;     // multi: rows of fields
};
Obj obj[2];
u64 g_span = 700;
unsigned bits_needed(u64 x) { unsigned n = 1; while (n < 64 && x >> n) n++; return n; }

// puts a freshly built structure into its place: a new object, or assigned into the one that is there
template <class T> void put(std::unique_ptr<T>& slot, T* fresh, i64 into) {
    if (!slot || into % 3 == 0) { slot.reset(); slot.reset(fresh); return; }
    if (into % 3 == 1) *slot = std::move(*fresh); else { const T& c = *fresh; *slot = c; }
    delete fresh; Unscope u; probe("assigned_into_used_object");
}
template <class T> void make(Obj& o, i64 into) {
    auto src = new std::vector<T>(o.v.begin(), o.v.end());
    for (size_t i = 0; i < o.v.size(); i++) o.v[i] = (u64)(*src)[i];
    const auto& c = *src;
    must("construction", [&] {
        if (o.kind == K_FIT_LIST) put(o.fit, new FitVector(c), into);
        else if (o.kind == K_DAC) put(o.dac, new DacVector(c), into);
        else { if (o.widths.size() & 1) put(o.dac, new DacVector(c, std::vector<size_t>(o.widths.begin(), o.widths.end())), into);
               else put(o.dac, new DacVector(c, std::vector<int>(o.widths.begin(), o.widths.end())), into); }
    });
    delete src; // the structure must not keep referring to it
}
void build(Obj& o, const Op& op) {
    o.kind = (int)(op.arg(1) % K_N); u64 n = (u64)op.arg(2); i64 mode = op.arg(3); u64 seed = (u64)op.arg(4); i64 how = op.arg(5), into = op.arg(6);
    if (into % 3 == 0) { o.fit.reset(); o.dac.reset(); o.mv.reset(); } else { if (o.kind != K_FIT_LIST && o.kind != K_FIT_WIDTH) o.fit.reset(); if (o.kind != K_DAC && o.kind != K_DAC_W) o.dac.reset(); if (o.kind != K_MULTI) o.mv.reset(); }
    o.v.clear(); o.f.clear(); o.widths.clear();
    Rng r(seed ^ 77);
    if (o.kind == K_MULTI) {
        u64 k = r.chance(1, 6) ? 5 + r.below(kFields - 4) : 1 + r.below(4); if (k > 4) { n = n % 4000; probe("many_fields"); }
        bool wide = k > 4 && r.chance(1, 2); for (u64 i = 0; i < k; i++) o.widths.push_back(wide ? 8 : 1 + r.below(8));
        n = n % g_span;
        o.f.assign(n, {});
        for (auto& row : o.f) for (u64 i = 0; i < k; i++) row.push_back(r.width_value((unsigned)o.widths[i] * 8));
        auto set = [&](MultipleVector& m, u64 i, u64 id, u64 x) {
            with_field(id, [&](auto f) { m.set_nested_element<f()>(i, x); });
        };
        must("multi-field construction", [&] {
            MultipleVector* m = new MultipleVector();
            m->set_element_sizes(std::vector<size_t>(o.widths.begin(), o.widths.end()));
            if (how % 3 == 0) { m->resize(n); for (u64 i = 0; i < n; i++) for (u64 id = 0; id < k; id++) set(*m, i, id, o.f[i][id]); }
            else for (u64 i = 0; i < n; i++) {
                auto& w = o.f[i];
                if (how % 3 == 1) { m->emplace_back(); for (u64 id = 0; id < k; id++) m->block(i).set_at(id, (id_type)w[id]); }
                else push_row(*m, w, k);
            }
            put(o.mv, m, into);
        });
        return;
    }
    int type = (int)(how % 4); unsigned mb = type == 0 ? 64 : type == 1 ? 32 : type == 2 ? 8 : 31;
    if (how & 8) mb = std::min<unsigned>(mb, 1 + (unsigned)r.below(mb));
    if (o.kind == K_FIT_WIDTH) mb = 1 + (unsigned)(seed % 64);
    o.v = ints_of(n, mode, seed, mb);
    u64 mx = 0; for (auto x : o.v) mx = std::max(mx, x);
    if (mx >> 63) probe("value_with_top_bit");
    if (o.kind == K_FIT_WIDTH) {
        must("construction", [&] {
            if (how % 3 == 0) { auto* f = new FitVector(mb); for (auto x : o.v) f->push_back(x); put(o.fit, f, into); }
            else if (how % 3 == 1) { auto* f = new FitVector(mb, o.v.size()); for (size_t i = 0; i < o.v.size(); i++) (*f)[i] = o.v[i]; put(o.fit, f, into); }
            else { auto* f = new FitVector(mb, o.v.size(), ~0ull >> (64 - mb)); for (size_t i = o.v.size(); i-- > 0;) (*f)[i] = o.v[i]; put(o.fit, f, into); }
        });
        return;
    }
    if (o.kind == K_DAC_W) {
        unsigned need = bits_needed(mx); unsigned sum = 0; int style = (int)r.below(5); size_t most = style == 4 ? 64 : r.chance(1, 2) ? 8 : 20;
        if (style == 3) { while (sum < need) { unsigned w = std::min(1 + (unsigned)r.below(64), 64 - sum); o.widths.push_back(w); sum += w; } }
        while (sum < need && o.widths.size() < most) {
            unsigned w = style == 0 ? 8 : style == 1 ? 1 + (unsigned)r.below(24) : style == 4 ? 1 + (unsigned)r.chance(1, 20) : 1 + (unsigned)r.below(4);
            if (o.widths.size() + 1 >= most) w = need - sum;
            if (sum + w > 64) w = 64 - sum;
            o.widths.push_back(w); sum += w;
        }
        if (o.widths.size() > 16) probe("many_layers");
        if (r.chance(1, 10)) { o.widths.clear(); sum = 64; switch (r.below(4)) { case 0: o.widths = {8, 16, 32, 64}; break; case 1: o.widths = {64, 4}; break; case 2: o.widths = {1, 64, 64}; break; default: while (o.widths.size() < 6) o.widths.push_back(32 + r.below(33)); } probe("layers_wider_than_a_word_together"); }
        if (sum < 60 && r.chance(1, 3)) { o.widths.push_back(4); probe("unused_layer"); }
    }
    switch (type) { case 0: make<uint64_t>(o, into); break; case 1: make<uint32_t>(o, into); break; case 2: make<uint8_t>(o, into); break; default: make<int>(o, into); }
}
template <int Id> void field(const Obj& o, u64 i, i64 what) {
    const MultipleVector& m = *o.mv;
    u64 want = o.f[i][Id];
    if (what % 3 == 0) EQ("field by nested_element", value("nested_element", [&] { return (u64)m.nested_element<Id>(i); }), want, "i=" + S(i) + " field=" + S(Id));
    else if (what % 3 == 1) EQ("field by block", value("get", [&] { return (u64)m.block(i).template get<Id>(); }), want, "i=" + S(i) + " field=" + S(Id));
    else EQ("restricted field", value("restricted_get", [&] { return (u64)m.block(i).template restricted_get<Id, uint32_t>(); }), (u64)(uint32_t)want, "i=" + S(i) + " field=" + S(Id));
}
void query(const Obj& o, i64 what, u64 i) {
    if (o.kind == K_MULTI) {
        EQ("size", value("size", [&] { return (u64)o.mv->size(); }), o.f.size());
        if (o.f.empty()) return;
        i %= o.f.size(); u64 k = o.widths.size();
        with_field((u64)(what / 3) % k, [&](auto f) { field<f()>(o, i, what); });
        return;
    }
    u64 n = o.v.size();
    auto common = [&](const auto& c) {
        switch (what % 6) {
        case 0: case 1: if (!n) break; i %= n; EQ("element", value("operator[]", [&] { return (u64)c[i]; }), o.v[i], "i=" + S(i)); return;
        case 2: {
            i %= n + 2; u64 got = 0; Out out = sut([&] { got = (u64)c.at(i); });
            if (i >= n) CHECK(out == Out::range, "wrong-answer", "at(" + S(i) + ") of " + S(n) + " elements did not report out of range");
            else { CHECK(out == Out::ok, "unexpected-exception", "at() threw"); EQ("at", got, o.v[i], "i=" + S(i)); }
            return; }
        case 3: if (!n) break; EQ("front", value("front", [&] { return (u64)c.front(); }), o.v[0]); return;
        case 4: if (!n) break; EQ("back", value("back", [&] { return (u64)c.back(); }), o.v[n - 1]); return;
        }
        EQ("size", value("size", [&] { return (u64)c.size(); }), n);
        EQ("empty", value("empty", [&] { return (u64)c.empty(); }), n == 0);
    };
    if (o.fit) { const FitVector& c = *o.fit; common(c); return; }
    const DacVector& d = *o.dac;
    if (what >= 20 && n) {
        i %= n;
        if (what % 2 && o.kind == K_DAC_W) {
            u64 dep = 0, x = o.v[i]; while (dep + 1 < o.widths.size()) { x = o.widths[dep] >= 64 ? 0 : x >> o.widths[dep]; if (!x) break; dep++; }
            EQ("depth", value("depth", [&] { return (u64)d.depth(i); }), dep, "i=" + S(i));
        } else {
            u64 steps = 1 + (u64)what % 5, bad = ~0ull, got = 0;
            must("iteration", [&] { auto it = d.begin(); it += (i64)i; for (u64 k = i; k < n && k < i + steps; k++, ++it) if ((u64)*it != o.v[k]) { bad = k; got = (u64)*it; break; } });
            if (bad != ~0ull) EQ("iteration", got, o.v[bad], "i=" + S(bad));
        }
        return;
    }
    common(d);
}
void sweep(const Obj& o) {
    if (o.kind == K_MULTI) { for (i64 w = 0; w < 3 * (i64)o.widths.size(); w++) for (u64 i = 0; i < o.f.size(); i += o.f.size() > 2000 ? 1 + (u64)w % 7 * 3 : 1) query(o, w, i); return; }
    for (u64 i = 0; i < o.v.size(); i++) query(o, 0, i);
    for (i64 w = 2; w < 6; w++) query(o, w, o.v.size());
    auto every = [&](const auto& c) {
        u64 k = 0, n = o.v.size(), bad = ~0ull, got = 0;
        must("iteration", [&] { for (auto x : c) { if (k >= n || (u64)x != o.v[k]) { bad = k; got = (u64)x; break; } k++; } });
        if (bad != ~0ull) EQ("iteration", got, bad < n ? o.v[bad] : 0, "i=" + S(bad));
        EQ("iteration length", k, n);
    };
    if (o.fit) every(*o.fit);
    if (o.dac) {
        every(*o.dac); u64 n = o.v.size();
        if (value("num_layers", [&] { return (u64)o.dac->num_layers(); }) > 1) probe("several_layers");
        if (o.kind == K_DAC && value("num_layers", [&] { return (u64)o.dac->num_layers(); }) >= 8) probe("most_layers");
        if (o.kind == K_DAC_W) for (u64 i = 0; i < n; i += 1 + n / 50) query(o, 21, i);
    }
}
// a walk with an iterator of the shared vector: every kind of step, against the position it stands for
template <class Sequence> void walk(const Obj& o, const Sequence& d, u64 seed, u64 steps) {
    constexpr bool both = std::is_same_v<Sequence, FitVector>;   // it[n] takes a signed number there
    const i64 n = (i64)o.v.size(); Rng r(seed * 31 + 7); i64 p = (i64)r.below((u64)n), bad = -1, q = 0; u64 got = 0; const char* what = "";
    probe("iterator_walk");
    must("iterator walk", [&] {
        auto it = d.begin() + p;
        auto see = [&](const char* w, u64 x, i64 at) { if (x != o.v[(size_t)at]) { bad = at; got = x; what = w; return true; } return false; };
        for (u64 s = 0; s < steps && bad < 0; s++) {
            i64 t = (i64)r.below((u64)n); // where this step goes
            switch (r.below(14)) {
            case 0: if (p + 1 < n) { ++it; p++; see("element after ++it", (u64)*it, p); } break;
            case 1: if (p + 1 < n) { auto old = it++; p++; see("result of it++", (u64)*old, p - 1) || see("element after it++", (u64)*it, p); } break;
            case 2: if (p) { --it; p--; see("element after --it", (u64)*it, p); } break;
            case 3: if (p) { auto old = it--; p--; see("result of it--", (u64)*old, p + 1) || see("element after it--", (u64)*it, p); } break;
            case 4: it += t - p; p = t; see("element after it += n", (u64)*it, p); break;
            case 5: it -= p - t; p = t; see("element after it -= n", (u64)*it, p); break;
            case 6: see("element at it + n", (u64)*(it + (t - p)), t); break;
            case 7: see("element at it - n", (u64)*(it - (p - t)), t); break;
            case 8: see("element at n + it", (u64)*((t - p) + it), t); break;
            case 9: if constexpr (both) see("it[n]", (u64)it[t - p], t); else if (t >= p) see("it[n]", (u64)it[(size_t)(t - p)], t); break;
            case 10: q = (d.begin() + t) - it; if (q != t - p) { bad = t; got = (u64)q; what = "distance"; } break;
            case 11: q = d.end() - it; if (q != n - p) { bad = n; got = (u64)q; what = "distance to the end"; } break;
            case 12: { auto o2 = d.begin() + t; q = (it == o2) | (it != o2) << 1 | (it < o2) << 2 | (it > o2) << 3 | (it <= o2) << 4 | (it >= o2) << 5;
                i64 w = (p == t) | (p != t) << 1 | (p < t) << 2 | (p > t) << 3 | (p <= t) << 4 | (p >= t) << 5; if (q != w) { bad = t; got = (u64)q; what = "comparison"; } break; }
            default: see("*it", (u64)*it, p);
            }
        }
    });
    CHECK(bad < 0, "wrong-answer", std::string("iterator at position ") + S(p) + ", target " + S(bad) + ": " + what + " gives " + S(got) + (bad >= 0 && bad < n ? ", stored there " + S(o.v[(size_t)bad]) : ""));
}
// more bits than 32-bit numbers reach
void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); bool list = op.arg(1) & 1; unsigned w = 1 + (unsigned)op.arg(3) % 64; if (list) w = std::max(w, 60u); u64 n = (u64)op.arg(2) / w + 10 + q.below(200), m = w >= 64 ? ~0ull : (1ull << w) - 1;
    std::map<u64, u64> v; FitVector* f = nullptr; u64 rest = list ? q.next() & m : 0;
    for (u64 e = 5; e < 33; e++) for (i64 d = -2; d <= 2; d++) if (u64 i = ((1ull << e) / w) + (u64)d; i < n && q.chance(1, 2)) v[i] = q.next() & m;
    for (int i = 0; i < 60; i++) v[q.below(n)] = q.next() & m;
    v[n - 1] = m;
    if (list) { std::vector<u64>* src; { Scope s; src = new std::vector<u64>(n, rest); } for (auto& x : v) (*src)[x.first] = x.second; const auto& c = *src; must("construction from a list", [&] { f = new FitVector(c); delete src; }); }
    else must("construction", [&] { f = new FitVector((size_t)w, (size_t)n); for (auto& x : v) (*f)[x.first] = x.second; });
    const FitVector& c = *f; EQ("size", value("size", [&] { return (u64)c.size(); }), n);
    auto look = [&](u64 i) { auto it = v.find(i); EQ("element", value("read", [&] { return i % 3 == 0 ? (u64)*(c.begin() + (i64)i) : i & 1 ? (u64)c[i] : (u64)c.at(i); }), it == v.end() ? rest : it->second, "position " + S(i) + " of " + S(n) + ", " + S(w) + " bits each"); };
    for (auto& x : v) { look(x.first); if (x.first) look(x.first - 1); if (x.first + 1 < n) look(x.first + 1); }
    for (int i = 0; i < 50; i++) look(q.below(n));
    EQ("back", value("back", [&] { return (u64)c.back(); }), m); probe("beyond_32_bits"); must("destruction", [&] { delete f; });
}
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 100000; large_run(); } else g_span = 700;
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1];
        if (op.name == "huge") huge(op);
        else if (op.name == "build") build(o, op);
        else if (op.name == "q") { if (o.kind >= 0) query(o, op.arg(1), (u64)op.arg(2)); }
        else if (op.name == "walk") { if (o.kind >= 0 && !o.v.empty()) { if (o.dac) walk(o, *o.dac, (u64)op.arg(1), (u64)op.arg(2)); else if (o.fit) walk(o, *o.fit, (u64)op.arg(1), (u64)op.arg(2)); } }
        else if (op.name == "sweep") { if (o.kind >= 0) sweep(o); }
    });
    if (conflict_seen()) probe("conflicting_accesses_by_readers");
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 3000)) { i64 l = r.chance(1, 4); p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), l, l ? 1ll << 31 : 1ll << (r.chance(1, 4) ? 31 : 32), r.range(0, 63)}); p.random_sched(r, false); return; }
    int objs = 1 + (int)r.below(2);
    for (int k = 0; k < objs; k++)
        p.add(-1, "build", {k, r.range(0, K_N - 1), (i64)(r.chance(1, 12) ? r.size(tier ? 20000 : 6000) : r.size(tier ? 3000 : 700)), r.range(0, 9), (i64)r.below(1u << 30), r.range(0, 15)});
    if (r.chance(1, 25)) { auto& a = p.ops[0].a; a[1] = K_DAC; a[2] = 5000 + (i64)r.below(7000); a[3] = 10; a[5] = 0; } // a list that asks for more layers than the vector allows
    bool large = r.chance(1, 60); if (large) { p.cfg["large"] = 1; objs = 1; while (p.ops.size() > 1) p.ops.pop_back(); auto& a = p.ops[0].a; i64 k = a[1]; a[2] = r.chance(1, 3) ? 65536 + r.range(-3, 3) : 30000 + (i64)r.below(k == K_FIT_LIST || k == K_FIT_WIDTH ? 170000 : 60000); }
    bool par = r.chance(4, 5); int tasks = par ? r.tasks() : 0;
    u64 hot[5]; for (auto& h : hot) h = r.below(large ? 1 << 18 : 1 << 14);
    i64 hw[3]; for (auto& h : hw) h = r.range(0, 29);
    for (int t = 0; t < tasks; t++)
        for (int k = tasks > 4 ? 1 + (int)r.below(4) : 2 + (int)r.below(tier ? 24 : 14); k > 0; k--)
            p.add(t, "q", {(i64)r.below((u64)objs), r.chance(2, 3) ? hw[r.below(3)] : r.range(0, 29), (i64)(r.chance(3, 4) ? hot[r.below(5)] + r.below(2) : r.below(large ? 1 << 18 : 1 << 14))});
    for (int t = 0; t < std::max(1, tasks); t++) if (r.chance(1, tasks > 4 ? 16 : 4)) p.add(par ? t : -1, "walk", {(i64)r.below((u64)objs), (i64)r.below(1u << 30), 4 + (i64)r.below(40)});
    for (int k = 0; k < objs; k++) if (!par || r.chance(2, 3)) p.add(-1, "sweep", {k});
    if (!large && r.chance(1, 4)) { // one object after another in the same place, asked the same questions
        for (int g = 1 + (int)r.below(4); g > 0; g--) {
            i64 k = (i64)r.below((u64)objs); auto b = p.ops[(size_t)k].a; i64 w[3], x[3]; for (int j = 0; j < 3; j++) { w[j] = r.range(0, 29); x[j] = (i64)(r.chance(1, 2) ? r.below(8) : hot[r.below(5)]); }
            int q = 1 + (int)r.below(3); i64 ws = (i64)r.below(1u << 30); bool wk = r.chance(1, 3);
            for (int j = 0; j < q; j++) p.add(-1, "q", {k, w[j], x[j]});
            if (wk) p.add(-1, "walk", {k, ws, 1 + (i64)r.below(20)});
            if (r.chance(1, 3)) b[2] = (i64)r.size(900);
            p.add(-1, "build", {k, b[1], std::min<i64>(b[2], 3000), r.chance(1, 2) ? b[3] : r.range(0, 9), (i64)r.below(1u << 30), r.chance(1, 2) ? b[5] : r.range(0, 15), r.range(0, 2)});
            if (wk) p.add(-1, "walk", {k, ws, 1 + (i64)r.below(20)});
            for (int j = q; j-- > 0;) p.add(-1, "q", {k, w[j], x[j]});
            if (r.chance(1, 4)) p.add(-1, "sweep", {k});
        }
    }
    p.random_sched(r, par);
}
} // namespace
const Property sim::kProperty = {"C12", gen, run};
