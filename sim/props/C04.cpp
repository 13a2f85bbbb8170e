// C04: growable sequences keep exactly the stored values through any history and memory exhaustion.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "fields.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
using Val = std::array<u64, 4>;
enum { K_BIT, K_FIT, K_FIELDS, K_MB1, K_MB2, K_MB3, K_N };
struct Cell { Val v{}; bool known = true; };
struct Obj {
    int kind = -1; bool lost = false;
    unsigned width = 1; std::vector<unsigned> fields;      // bytes per field
    std::unique_ptr<BitVector> b; std::unique_ptr<FitVector> f; std::unique_ptr<MultipleVector> m;
    std::unique_ptr<MultiBitVector<1>> m1; std::unique_ptr<MultiBitVector<2>> m2; std::unique_ptr<MultiBitVector<3>> m3;
    std::vector<Cell> c; bool shrunk = false, built = false;
    u64 mask(size_t k = 0) const {
        if (kind == K_BIT || kind == K_MB1) return 1;
        if (kind == K_MB2) return 3;
        if (kind == K_MB3) return 7;
        if (kind == K_FIT) return width >= 64 ? ~0ull : (1ull << width) - 1;
        return fields[k] >= 8 ? ~0ull : (1ull << 8 * fields[k]) - 1;
    }
    size_t nf() const { return kind == K_FIELDS ? fields.size() : 1; }
    bool multi() const { return kind >= K_MB1; }
};
Obj obj[2];
u64 g_span = 2500;      // sizes stay below this

Val val_of(const Obj& o, i64 x) {
    Val v{}; Rng r((u64)x * 77 + 5);
    for (size_t k = 0; k < o.nf(); k++) { u64 m = o.mask(k); int s = (int)r.below(5); v[k] = s == 0 ? m : s == 1 ? 0 : s == 2 ? (m >> 1) + 1 : r.next() & m; v[k] &= m; }
    return v;
}
template <int Id> u64 field(const Obj& o, u64 i, int how) {
    MultipleVector& m = *o.m; const MultipleVector& c = *o.m;
    switch (how % 4) {
    case 0: return c.nested_element<Id>(i);
    case 1: return c.block(i).template get<Id>();
    case 2: return m.block(i).template get<Id>();
    default: return m.block(i).get_at(Id);
    }
}
u64 read(const Obj& o, u64 i, size_t k, int how) {
    switch (o.kind) {
    case K_BIT: { const BitVector& c = *o.b; switch (how % 5) { case 0: return c[i]; case 1: return (*o.b)[i]; case 2: return c.at(i); case 3: return *(c.begin() + i); default: return *(o.b->end() - (o.c.size() - i)); } }
    case K_FIT: { const FitVector& c = *o.f; switch (how % 6) { case 0: return c[i]; case 1: return (*o.f)[i]; case 2: return c.at(i); case 3: return *(c.begin() + (i64)i); case 4: return *(o.f->end() - (i64)(o.c.size() - i)); default: return *&(*o.f)[i]; } }
    case K_FIELDS: switch (k) { case 0: return field<0>(o, i, how); case 1: return field<1>(o, i, how); case 2: return field<2>(o, i, how); default: return field<3>(o, i, how); }
    case K_MB1: return (*o.m1)[i];
    case K_MB2: return (*o.m2)[i];
    default: return (*o.m3)[i];
    }
}
void check_at(Obj& o, u64 i, int how, const char* when) {
    if (o.lost || i >= o.c.size() || !o.c[i].known) return;
    for (size_t k = 0; k < o.nf(); k++) {
        u64 g = value("read", [&] { return read(o, i, k, how); });
        EQ("element", g, o.c[i].v[k], std::string(when) + ", i=" + S(i) + (o.nf() > 1 ? " field=" + S(k) : ""));
    }
}
void check_size(Obj& o, const char* when) {
    if (o.lost || o.multi()) return;
    u64 n = value("size", [&] { return o.kind == K_BIT ? (u64)o.b->size() : o.kind == K_FIT ? (u64)o.f->size() : (u64)o.m->size(); });
    EQ("size", n, o.c.size(), when);
}
void check_all(Obj& o, const char* when) {
    if (o.lost || o.kind < 0) return;
    check_size(o, when);
    u64 n = o.c.size(), step = 1 + n / 400;
    for (u64 i = 0; i < n; i += step) check_at(o, i, (int)i, when);
    if (n) { check_at(o, n - 1, 0, when); }
    auto both_ways = [&](auto& m) {
        auto same = [&](u64 i, u64 x) { return !o.c[i].known || x == o.c[i].v[0]; };
        u64 k = 0, bad = ~0ull;
        must("iteration", [&] { const auto& c = m; for (auto it = c.begin(); it != c.end(); ++it, ++k) if (k >= n || !same(k, *it)) { bad = k; break; } });
        if (bad != ~0ull) fail("wrong-answer", std::string("iteration differs from the stored elements [") + when + "] at " + S(bad));
        EQ("iteration length", k, n, when);
        k = n;
        must("backward iteration", [&] { auto it = m.end(); while (k) { --it; --k; if (!same(k, *it)) { bad = k; break; } } if (bad == ~0ull && !(it == m.begin())) bad = 0; if (bad == ~0ull && (u64)(m.end() - m.begin()) != n) bad = n; });
        if (bad != ~0ull) fail("wrong-answer", std::string("backward iteration differs from the stored elements [") + when + "] at " + S(bad));
    };
    if (o.kind == K_BIT) both_ways(*o.b); else if (o.kind == K_FIT) both_ways(*o.f);
    if (o.built) {
        u64 cnt[8] = {};
        for (u64 i = 0; i < n && o.c[i].known; i++) {
            u64 s = o.c[i].v[0]; u64 want = cnt[s]++;
            if (!s || (i % step && i + 2 < n)) continue;
            EQ("rank", value("rank", [&] { return o.kind == K_MB1 ? (u64)o.m1->rank(i) : o.kind == K_MB2 ? (u64)o.m2->rank(i) : (u64)o.m3->rank(i); }), want, std::string(when) + ", i=" + S(i));
        }
    }
}
// a walk with an iterator over the bits or the elements: every kind of step, comparison, assignment and access, against the position it stands for
template <bool Const, class Sequence> void walk_over(Obj& o, Sequence& m, u64 seed, u64 steps) {
    using Iter = std::conditional_t<Const, typename Sequence::const_iterator, typename Sequence::iterator>;
    constexpr bool any = std::is_same_v<Sequence, FitVector>;   // it + n takes a signed number there
    const i64 n = (i64)o.c.size(); if (!n) return; Rng r(seed * 31 + 7); i64 p = (i64)r.below((u64)n), bad = -1; u64 got = 0; const char* what = "";
    probe("iterator_walk");
    must("iterator walk", [&] {
        const Sequence& c = m;
        auto b = [&] { if constexpr (Const) return c.begin(); else return m.begin(); }; auto e = [&] { if constexpr (Const) return c.end(); else return m.end(); };
        Iter it = b() + (i64)p; auto was = it; i64 wasp = p;
        auto see = [&](const char* w, u64 x, i64 at) { if (o.c[(size_t)at].known && x != o.c[(size_t)at].v[0]) { bad = at; got = x; what = w; } };
        for (u64 s = 0; s < steps && bad < 0; s++) {
            i64 t = (i64)r.below((u64)n), q = 0;
            switch (r.below(20)) {
            case 17: if (p + 1 < n) { auto old = it++; p++; see("result of it++", *old, p - 1); if (bad < 0) see("element after it++", *it, p); } break;
            case 18: if (p) { auto old = it--; p--; see("result of it--", *old, p + 1); if (bad < 0) see("element after it--", *it, p); } break;
            case 19: { typename Sequence::const_iterator k(it); see("element at a constant iterator made from it", *k, p); break; }
            case 0: if (p + 1 < n) { ++it; p++; see("element after ++it", *it, p); } break;
            case 1: if (p) { --it; p--; see("element after --it", *it, p); } break;
            case 2: it += t - p; p = t; see("element after it += n", *it, p); break;
            case 3: it -= p - t; p = t; see("element after it -= n", *it, p); break;
            case 4: if (t >= p || any) see("element at it + n", *(it + (t - p)), t); break;
            case 5: if (t <= p || any) see("element at it - n", *(it - (p - t)), t); break;
            case 6: if (t >= p || any) see("element at n + it", *((t - p) + it), t); break;
            case 7: see("it[n]", it[t - p], t); break;
            case 8: q = (b() + t) - it; if (q != t - p) { bad = t; got = (u64)q; what = "distance"; } break;
            case 9: q = e() - it; if (q != n - p) { bad = n; got = (u64)q; what = "distance to the end"; } break;
            case 10: case 11: { if (r.chance(1, 2)) t = std::min(n - 1, std::max<i64>(0, p - 2 + (i64)r.below(5))); auto o2 = b() + t; q = (it == o2) | (it != o2) << 1 | (it < o2) << 2 | (it > o2) << 3 | (it <= o2) << 4 | (it >= o2) << 5;
                i64 w = (p == t) | (p != t) << 1 | (p < t) << 2 | (p > t) << 3 | (p <= t) << 4 | (p >= t) << 5; if (q != w) { bad = t; got = (u64)q; what = "comparison"; } break; }
            case 12: was = it; wasp = p; break;
            case 13: see("element at an assigned iterator", *was, wasp); if (bad < 0 && r.chance(1, 2)) { it = was; p = wasp; } break;
            case 14: { auto cp(it); see("element at a copied iterator", *cp, p); break; }
            case 15: if constexpr (!Const) { u64 a = r.next() & o.mask(), w = r.chance(1, 2) ? ~a & o.mask() : r.next() & o.mask(); *it = a; o.c[(size_t)p] = Cell{Val{a}, true}; if ((u64)c[(size_t)p] != a) { bad = p; got = (u64)c[(size_t)p]; what = "element written through *it"; break; } it[t - p] = w; o.c[(size_t)t] = Cell{Val{w}, true}; if ((u64)c[(size_t)t] != w) { bad = t; got = (u64)c[(size_t)t]; what = "element written through it[n]"; } } break;
            default: see("*it", *it, p);
            }
        }
    });
    CHECK(bad < 0, "wrong-answer", std::string("iterator at position ") + S(p) + ", target " + S(bad) + ": " + what + " gives " + S(got) + (bad >= 0 && bad < n ? ", stored there " + S(o.c[(size_t)bad].v[0]) : ""));
}
void grow(Obj& o, u64 n, const Cell& fill) { if (n < o.c.size()) { o.c.resize(n); o.shrunk = true; } else o.c.resize(n, fill); }
// a block assigned, pushed or resized with fewer values than it has fields: how many are given (all of them most of the time)
size_t given(const Obj& o, int how) { return o.kind == K_FIELDS && how % 12 >= 9 ? (size_t)(how / 12) % (o.nf() + 1) : o.nf(); }
// a narrower type written to one field through a block: the low bytes of that type, or the whole field when it is smaller
struct Narrow { size_t k; unsigned bytes; };
bool narrow(const Obj& o, int how, Narrow& w) { if (o.kind != K_FIELDS || how % 12 != 8) return false; w.k = (size_t)(how / 12) % o.nf(); w.bytes = 1u << (unsigned)(how / 48) % 3; return true; }
template <int Id> void set_narrow(MultipleVector& m, u64 i, u64 v, unsigned bytes) { auto b = m.block(i); if (bytes == 1) b.restricted_set<Id, uint8_t>((uint8_t)v); else if (bytes == 2) b.restricted_set<Id, uint16_t>((uint16_t)v); else b.restricted_set<Id, uint32_t>((uint32_t)v); }
template <int Id> u64 get_narrow(MultipleVector& m, u64 i, int how) {
    auto b = m.block(i); auto c = ((const MultipleVector&)m).block(i);
    switch (how % 6) { case 0: return b.restricted_get<Id, uint8_t>(); case 1: return b.restricted_get<Id, uint16_t>(); case 2: return b.restricted_get<Id, uint32_t>(); case 3: return c.restricted_get<Id, uint8_t>(); case 4: return c.restricted_get<Id, uint16_t>(); default: return c.restricted_get<Id, uint32_t>(); }
}
void set(Obj& o, u64 i, const Val& v, int how) {   // code under test
    switch (o.kind) {
    case K_BIT: if (how % 3 == 0) (*o.b)[i] = v[0]; else if (how % 3 == 1) o.b->at(i) = v[0]; else *(o.b->begin() + i) = v[0]; break;
    case K_FIT: if (how % 3 == 0) *(o.f->begin() + (i64)i) = v[0]; else if (how % 3 == 1) (*o.f)[i] = v[0]; else o.f->at(i) = v[0]; break;
    case K_FIELDS: {
        MultipleVector& m = *o.m; size_t k = o.nf();
        Narrow w;
        if (narrow(o, how, w)) { switch (w.k) { case 0: set_narrow<0>(m, i, v[0], w.bytes); break; case 1: set_narrow<1>(m, i, v[1], w.bytes); break; case 2: set_narrow<2>(m, i, v[2], w.bytes); break; default: set_narrow<3>(m, i, v[3], w.bytes); } }
        else if (how % 12 >= 9) { auto b = m.block(i); k = given(o, how); if (k == 0) b = std::initializer_list<id_type>(); else if (k == 1) b = {v[0]}; else if (k == 2) b = {v[0], v[1]}; else if (k == 3) b = {v[0], v[1], v[2]}; else b = {v[0], v[1], v[2], v[3]}; }
        else if (how % 4 == 0) { m.set_nested_element<0>(i, v[0]); if (k > 1) m.set_nested_element<1>(i, v[1]); if (k > 2) m.set_nested_element<2>(i, v[2]); if (k > 3) m.set_nested_element<3>(i, v[3]); }
        else if (how % 4 == 1) { auto b = m.block(i); if (k > 3) b.set<3>(v[3]); if (k > 2) b.set<2>(v[2]); if (k > 1) b.set<1>(v[1]); b.set<0>(v[0]); }
        else if (how % 4 == 2) { auto b = m.block(i); for (size_t j = 0; j < k; j++) b.set_at(j, v[j]); }
        else { auto b = m.block(i); if (k == 1) b = {v[0]}; else if (k == 2) b = {v[0], v[1]}; else if (k == 3) b = {v[0], v[1], v[2]}; else b = {v[0], v[1], v[2], v[3]}; }
        break; }
    case K_MB1: o.m1->set(i, (uint8_t)v[0]); break;
    case K_MB2: o.m2->set(i, (uint8_t)v[0]); break;
    default: o.m3->set(i, (uint8_t)v[0]); break;
    }
}
void push_fields(MultipleVector& m, const Val& v, size_t k) { if (k == 0) m.push_back({}); else if (k == 1) m.push_back({v[0]}); else if (k == 2) m.push_back({v[0], v[1]}); else if (k == 3) m.push_back({v[0], v[1], v[2]}); else m.push_back({v[0], v[1], v[2], v[3]}); }
void resize_fields(MultipleVector& m, u64 n, const Val& v, size_t k) { if (k == 0) m.resize(n, {}); else if (k == 1) m.resize(n, {v[0]}); else if (k == 2) m.resize(n, {v[0], v[1]}); else if (k == 3) m.resize(n, {v[0], v[1], v[2]}); else m.resize(n, {v[0], v[1], v[2], v[3]}); }
template <class P> void transfer(P& dst, P& src, int how) {
    using T = typename P::element_type;
    if (how == 0) dst.reset(new T(*src)); else if (how == 1) { if (dst) *dst = *src; else dst.reset(new T(*src)); }
    else if (how == 2) dst.reset(new T(std::move(*src))); else { if (dst) *dst = std::move(*src); else dst.reset(new T(std::move(*src))); }
}
void drop(Obj& o) { o.b.reset(); o.f.reset(); o.m.reset(); o.m1.reset(); o.m2.reset(); o.m3.reset(); o.c.clear(); o.kind = -1; o.lost = o.shrunk = o.built = false; }

void make(Obj& o, const Op& op, Run& r) {
    drop(o); o.kind = (int)(op.arg(1) % K_N); u64 n = (u64)op.arg(2) % g_span; int how = (int)op.arg(3); Rng q((u64)op.arg(4));
    o.width = q.chance(1, 3) ? q.one_of<unsigned>({1, 7, 8, 31, 32, 33, 63, 64}) : 1 + (unsigned)q.below(64);
    o.fields.clear(); u64 nf = 1 + q.below(4); for (u64 k = 0; k < nf; k++) o.fields.push_back(1 + (unsigned)q.below(8));
    Val v = val_of(o, op.arg(4));
    std::vector<bool> src; if (o.kind == K_BIT) src = bits_of(n, op.arg(4) % 12, (u64)op.arg(4));
    std::vector<u64> ints; if (o.kind == K_FIT && how % 4 == 3) ints = ints_of(n, op.arg(4) % 10, (u64)op.arg(4), o.width);
    r.arm(op);
    std::vector<Cell> c;
    Out out = sut([&] {
        switch (o.kind) {
        case K_BIT: switch (how % 5) { case 0: o.b.reset(new BitVector()); break; case 1: o.b.reset(new BitVector(n)); break; case 2: o.b.reset(new BitVector(n, (bool)v[0])); break; case 3: o.b.reset(new BitVector(src)); break; default: o.b.reset(new BitVector{true, false, false, true, true}); } break;
        case K_FIT: switch (how % 4) { case 0: o.f.reset(new FitVector(o.width)); break; case 1: o.f.reset(new FitVector(o.width, n)); break; case 2: o.f.reset(new FitVector(o.width, n, v[0])); break; default: o.f.reset(new FitVector(ints)); } break;
        case K_FIELDS:
            if (how % 2) { o.m.reset(new MultipleVector()); o.m->set_element_sizes(o.fields); }
            else if (nf == 1) o.m.reset(new MultipleVector({o.fields[0]}));
            else if (nf == 2) o.m.reset(new MultipleVector({o.fields[0], o.fields[1]}));
            else if (nf == 3) o.m.reset(new MultipleVector({o.fields[0], o.fields[1], o.fields[2]}));
            else o.m.reset(new MultipleVector({o.fields[0], o.fields[1], o.fields[2], o.fields[3]}));
            break;
        case K_MB1: o.m1.reset(new MultiBitVector<1>()); break;
        case K_MB2: o.m2.reset(new MultiBitVector<2>()); break;
        default: o.m3.reset(new MultiBitVector<3>()); break;
        }
    });
    bool fired = alloc_fired(); disarm_alloc();
    if (out != Out::ok) { CHECK(fired && out == Out::bad_alloc, "unexpected-exception", "construction threw: " + last_out().what); drop(o); return; }
    Cell z, w; w.v = v;
    if (o.kind == K_BIT) { if (how % 5 == 1) grow(o, n, z); else if (how % 5 == 2) grow(o, n, w); else if (how % 5 == 3) for (bool x : src) { Cell k; k.v[0] = x; o.c.push_back(k); } else if (how % 5 == 4) for (bool x : {true, false, false, true, true}) { Cell k; k.v[0] = x; o.c.push_back(k); } }
    if (o.kind == K_FIT) {
        if (how % 4 == 1) grow(o, n, z); else if (how % 4 == 2) grow(o, n, w);
        else if (how % 4 == 3) { for (u64 x : ints) { Cell k; k.v[0] = x; o.c.push_back(k); } u64 mx = 0; for (u64 x : ints) mx = std::max(mx, x); o.width = value("unit_width", [&] { return (u64)o.f->unit_width(); }); if (o.width < 64 && mx >> o.width) fail("wrong-answer", "element width " + S(o.width) + " too narrow for " + S(mx)); if (o.width == 0) { /* an empty list: nothing fits, but it has room for any number of nothings */ must("reserve at width 0", [&] { o.f->reserve(n); }); EQ("size at width 0", value("size", [&] { return o.f->size(); }), 0); drop(o); return; } }
    }
    check_all(o, "after construction");
}

// a multi-field vector of many fields
void many_fields(const Op& op, Run& r) {
    Rng q((u64)op.arg(0)); size_t k = 5 + q.below(kFields - 4); std::vector<unsigned> w; bool wide = q.chance(1, 2); for (size_t i = 0; i < k; i++) w.push_back(wide ? 8 : 1 + (unsigned)q.below(8));
    std::vector<std::vector<u64>> m; auto row = [&] { std::vector<u64> v; for (auto b : w) v.push_back(q.width_value(b * 8)); return v; };
    std::unique_ptr<MultipleVector> x; must("construction", [&] { x.reset(new MultipleVector()); x->set_element_sizes(w); });
    auto look = [&](size_t i) {
        for (size_t f = 0; f < k; f++) {
            u64 g = 0; u64 how = q.below(4); const MultipleVector& c = *x;
            must("read", [&] { if (how == 0) g = x->block(i).get_at(f); else with_field(f, [&](auto id) { g = how == 1 ? (u64)c.nested_element<id()>(i) : how == 2 ? (u64)c.block(i).template get<id()>() : (u64)x->block(i).template get<id()>(); }); });
            EQ("element", g, m[i][f], "row " + S(i) + " of " + S(m.size()) + ", field " + S(f) + " of " + S(k));
        } };
    std::vector<std::vector<u64>> next; r.arm(op);
    for (int s = (int)op.arg(1) % 60; s >= 0; s--) {
        u64 what = q.below(8); next = m; std::vector<u64> v = row(); size_t i = m.empty() ? 0 : q.below(m.size()), f = q.below(k); u64 how = q.below(5), n = q.below(90);
        if (what < 3) { size_t given = q.chance(1, 3) ? q.below(std::min<size_t>(k, 6)) : k; if (given < k) std::fill(v.begin() + (long)given, v.end(), 0); next.push_back(v); what = 0; n = given; }
        else if (what < 5) { if (m.empty()) continue; if (how == 4) for (size_t j = 0; j < 4; j++) next[i][j] = v[j]; else next[i][f] = v[f]; what = 3; }
        else if (what == 5) next.resize(n, std::vector<u64>(k));
        else if (what == 6) { std::vector<u64> z(k); for (size_t j = 0; j < 4; j++) z[j] = v[j]; next.resize(n, z); }
        Out o = sut([&] {
            switch (what) {
            case 0: push_row(*x, v, n); break;
            case 3: { auto b = x->block(i); if (how == 0) b.set_at(f, v[f]); else if (how == 4) b = {v[0], v[1], v[2], v[3]}; else with_field(f, [&](auto id) { if (how == 1) x->set_nested_element<id()>(i, v[f]); else b.template set<id()>(v[f]); }); break; }
            case 5: x->resize(n); break; case 6: x->resize(n, {v[0], v[1], v[2], v[3]}); break;
            default: if (how == 0) x->reserve(n); else if (how == 1) { MultipleVector y(*x); *x = std::move(y); } else { MultipleVector y; y = *x; std::swap(*x, y); }
            } });
        if (o == Out::ok) m.swap(next); else CHECK(o == Out::bad_alloc && alloc_fired(), "unexpected-exception", std::string("an operation threw ") + out_name(o));
        EQ("size", value("size", [&] { return x->size(); }), m.size()); if (!m.empty()) { look(q.below(m.size())); look(m.size() - 1); }
    }
    disarm_alloc(); for (size_t i = 0; i < m.size(); i++) look(i);
    probe("many_fields"); must("destruction", [&] { x.reset(); });
}
// more bits than 32-bit numbers reach
void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); i64 kind = op.arg(1); u64 bits = (u64)op.arg(2) + 3000; if (kind == K_FIELDS) return; unsigned w = kind == K_FIT ? 1 + (unsigned)op.arg(3) % 64 : kind == K_MB2 ? 2 : kind == K_MB3 ? 3 : 1; u64 n = bits / w + q.below(200), m = w >= 64 ? ~0ull : (1ull << w) - 1;
    Obj o; o.kind = (int)kind; o.width = w; std::map<u64, u64> model;   // positions written; all others are zero
    std::vector<u64> pos; for (u64 e = 5; e < 33; e++) for (i64 d = -2; d <= 2; d++) if (u64 i = ((1ull << e) / w) + (u64)d; i < n && q.chance(1, 2)) pos.push_back(i);
    for (int i = 0; i < 30; i++) pos.push_back(q.below(n));
    for (u64 d = 1; d < 4; d++) pos.push_back(n - d);
    auto val = [&] { u64 x = q.next() & m; return q.chance(1, 3) ? m : x ? x : 1; };
    auto put = [&](u64 i, u64 v) { must("write", [&] { switch (kind) { case K_BIT: (*o.b)[i] = v; break; case K_FIT: (*o.f)[i] = v; break; case K_MB1: o.m1->set(i, (uint8_t)v); break; case K_MB2: o.m2->set(i, (uint8_t)v); break; default: o.m3->set(i, (uint8_t)v); } }); model[i] = v; };
    auto look = [&](u64 i) { auto it = model.find(i); EQ("element", value("read", [&] { return read(o, i, 0, 0); }), it == model.end() ? 0 : it->second, "position " + S(i) + " of " + S(n) + ", " + S(w) + " bits each"); };
    must("construction", [&] {
        switch (kind) {
        case K_BIT: o.b.reset(new BitVector()); o.b->reserve(n + 300); o.b->resize(n); break;
        case K_FIT: o.f.reset(new FitVector((size_t)w)); o.f->reserve(n + 300); o.f->resize(n); break;
        case K_MB1: o.m1.reset(new MultiBitVector<1>()); o.m1->resize(n - 1); break;
        case K_MB2: o.m2.reset(new MultiBitVector<2>()); o.m2->resize(n - 1); break;
        default: o.m3.reset(new MultiBitVector<3>()); o.m3->resize(n - 1);
        } });
    for (u64 i : pos) put(i, val());
    if (kind <= K_FIT) for (int i = 0; i < 100; i++) { u64 v = val(); must("append", [&] { if (kind == K_BIT) o.b->push_back(v); else o.f->push_back(v); }); model[n++] = v; }
    for (int i = 0; i < 40; i++) put(pos[q.below(pos.size())], q.chance(1, 4) ? 0 : val());
    if (kind <= K_FIT) EQ("size", value("size", [&] { return kind == K_BIT ? (u64)o.b->size() : (u64)o.f->size(); }), n);
    for (auto& kv : model) { look(kv.first); if (kv.first) look(kv.first - 1); if (kv.first + 1 < n) look(kv.first + 1); }
    for (int i = 0; i < 50; i++) look(q.below(n));
    probe("beyond_32_bits"); must("destruction", [&] { o = Obj(); });
}
void run(Run& r) {
    if (r.plan.get("large")) { g_span = 220000; large_run(); } else g_span = 2500;
    r.drive([&](const Op& op) {
        int s = (int)(op.arg(0) & 1); Obj& o = obj[s];
        if (op.name == "huge") { huge(op); return; }
        if (op.name == "fields") { many_fields(op, r); return; }
        if (op.name == "new") { make(o, op, r); return; }
        if (o.kind < 0 || (o.lost && op.name != "new")) return;
        u64 n = o.c.size(); Val v = val_of(o, op.arg(2)); int how = (int)op.arg(3);
        if (op.name == "set" || op.name == "push" || op.name == "resize" || op.name == "resizev" || op.name == "assign" || op.name == "fill" || op.name == "reserve" || op.name == "shrink" || op.name == "build" || op.name == "setref") {
            std::vector<Cell> next = o.c; Cell z, w, u; w.v = v; u.known = false; bool shr = o.shrunk, blt = o.built; bool heavy = true; u64 at = ~0ull;
            std::function<void()> call;
            u64 x = (u64)op.arg(1);
            auto grown = [&](u64 m, const Cell& c) { if (m < next.size()) { next.resize(m); shr = true; } else next.resize(m, c); };
            if (op.name == "set") {
                heavy = false;
                if (o.multi()) {
                    u64 i = how % 4 == 0 ? x % (g_span + 500) : x % (n + 3); if (i >= n) { grown(i + 1, shr ? u : z); heavy = i > n; }
                    next[i] = w; at = i; blt = false; call = [&, i] { set(o, i, v, how); };
                } else { if (!n) return; u64 i = x % n; Val b = next[i].v; next[i] = w; at = i;
                    if (Narrow q; narrow(o, how, q)) { u64 lo = (q.bytes >= 8 ? ~0ull : (1ull << 8 * q.bytes) - 1) & o.mask(q.k); next[i].v = b; next[i].v[q.k] = (b[q.k] & ~lo) | (v[q.k] & lo); probe("narrow_write"); }
                    else if (size_t g = given(o, how); g < o.nf()) { for (size_t k = g; k < o.nf(); k++) next[i].v[k] = b[k]; probe("fewer_values_than_fields"); } call = [&, i] { set(o, i, v, how); }; }
            } else if (op.name == "setref") {
                if (!n || o.kind > K_FIT) return; heavy = false; u64 i = x % n, j = (u64)op.arg(2) % n; next[i] = o.c[j]; at = i;
                if (how % 3) probe("written_through_its_address");
                const bool places = o.kind == K_BIT || o.f->unit_width() != 0; // elements of no bits all lie at one place
                auto through = [how, i, j, places](auto& x) { // through references, or through the addresses of the elements
                    const auto& cx = x; if (how % 3 == 0) { x[i] = x[j]; return; }
                    auto to = &x[i]; if (how % 3 == 1) { auto from = &x[j]; *to = *from; } else { auto from = &cx[j]; *to = (u64)*from; CHECK(!places || from - cx.begin() == (long long)j, "wrong-answer", "the address of an element is another place"); }
                    CHECK(!places || to - x.begin() == (long long)i, "wrong-answer", "the address of an element is another place");
                };
                call = [&, through] { if (o.kind == K_BIT) through(*o.b); else through(*o.f); };
            } else if (op.name == "push") {
                heavy = false; at = n;
                if (o.kind == K_FIELDS && how % 5 == 0) { next.push_back(z); call = [&] { o.m->emplace_back(); }; }
                else { for (size_t k = given(o, how); k < o.nf(); k++) w.v[k] = 0; next.push_back(w); blt = false; call = [&, n] { if (o.kind == K_BIT) o.b->push_back(v[0]); else if (o.kind == K_FIT) o.f->push_back(v[0]); else if (o.kind == K_FIELDS) push_fields(*o.m, v, given(o, how)); else set(o, n, v, how); }; }
            } else if (op.name == "resize") {
                u64 m = x % g_span; if (o.multi()) m++;
                grown(m, (o.kind == K_FIT || o.multi()) && shr ? u : z); blt = false;
                call = [&, m] { switch (o.kind) { case K_BIT: o.b->resize(m); break; case K_FIT: o.f->resize(m); break; case K_FIELDS: o.m->resize(m); break; case K_MB1: o.m1->resize(m - 1); break; case K_MB2: o.m2->resize(m - 1); break; default: o.m3->resize(m - 1); } };
            } else if (op.name == "resizev") {
                if (o.multi()) return; u64 m = x % g_span; for (size_t k = given(o, how); k < o.nf(); k++) w.v[k] = 0; grown(m, w);
                call = [&, m] { if (o.kind == K_BIT) o.b->resize(m, (bool)v[0]); else if (o.kind == K_FIT) o.f->resize(m, v[0]); else resize_fields(*o.m, m, v, given(o, how)); };
            } else if (op.name == "assign") {
                if (o.kind > K_FIT) return; u64 m = x % g_span; grown(m, w); for (auto& c : next) c = w;
                call = [&, m] { if (o.kind == K_BIT) o.b->assign(m, (bool)v[0]); else o.f->assign(m, v[0]); };
            } else if (op.name == "fill") {
                if (o.kind != K_BIT) return; u64 a = x % (n + 1), b = (u64)op.arg(4) % (n + 1); if (a > b && how % 4) std::swap(a, b);
                for (u64 i = a; i < b; i++) next[i] = w;
                call = [&, a, b] { o.b->fill(o.b->begin() + a, o.b->begin() + b, (bool)v[0]); };
                if (a < b && a / 64 == (b - 1) / 64) probe("fill_within_a_word");
            } else if (op.name == "reserve") {
                if (o.multi()) return; u64 m = x % (g_span + 1500);
                call = [&, m] { if (o.kind == K_BIT) o.b->reserve(m); else if (o.kind == K_FIT) o.f->reserve(m); else o.m->reserve(m); };
            } else if (op.name == "shrink") { if (o.kind != K_BIT) return; call = [&] { o.b->shrink_to_fit(); }; }
            else { if (!o.multi()) return; blt = true; call = [&] { if (o.kind == K_MB1) o.m1->build(); else if (o.kind == K_MB2) o.m2->build(); else o.m3->build(); }; }
            r.arm(op); Out out = sut(call); bool fired = alloc_fired(); disarm_alloc();
            if (out == Out::ok) {
                o.c = std::move(next); o.shrunk = shr; o.built = blt && n + 0 == o.c.size(); if (op.name == "build") o.built = true;
                if (heavy) check_all(o, ("after " + op.name).c_str());
                else { check_size(o, ("after " + op.name).c_str()); check_at(o, at, how, ("after " + op.name).c_str()); if (at) check_at(o, at - 1, how + 1, "neighbour"); check_at(o, at + 1, how + 1, "neighbour"); }
            } else {
                CHECK(fired && out == Out::bad_alloc, "unexpected-exception", op.name + " threw " + out_name(out) + " " + last_out().what);
                probe("operation_failed"); if (op.name == "build" || op.name == "set" || op.name == "push" || op.name == "resize") o.built = false;
                check_all(o, ("after a failed " + op.name).c_str());
            }
        } else if (op.name == "get") {
            if (n) { u64 i = (u64)op.arg(1) % n; check_at(o, i, how, "read"); }
            if (n && o.kind == K_FIELDS && !o.lost) {
                u64 i = (u64)op.arg(1) % n; size_t k = (size_t)op.arg(2) % o.nf(); static const u64 lows[3] = {0xff, 0xffff, 0xffffffff};
                u64 g = value("restricted_get", [&] { switch (k) { case 0: return get_narrow<0>(*o.m, i, how); case 1: return get_narrow<1>(*o.m, i, how); case 2: return get_narrow<2>(*o.m, i, how); default: return get_narrow<3>(*o.m, i, how); } });
                EQ("restricted element", g, o.c[i].v[k] & lows[how % 3], "i=" + S(i) + " field=" + S(k));
                EQ("element size", value("element_size", [&] { return (u64)o.m->element_size(k); }), o.fields[k], "field=" + S(k));
            }
            if (o.kind == K_BIT || o.kind == K_FIT) {
                u64 i = n + (u64)op.arg(2) % 3;
                Out out = sut([&] { if (o.kind == K_BIT) { const BitVector& c = *o.b; if (how & 1) (void)(bool)c.at(i); else (void)(bool)o.b->at(i); } else { const FitVector& c = *o.f; if (how & 1) (void)(u64)c.at(i); else (void)(u64)o.f->at(i); } });
                CHECK(out == Out::range, "wrong-answer", "at(" + S(i) + ") with " + S(n) + " elements did not report out of range");
                if (n && o.c[0].known) EQ("front", value("front", [&] { if (how & 1) { const BitVector* cb = o.b.get(); const FitVector* cf = o.f.get(); return o.kind == K_BIT ? (u64)cb->front() : (u64)cf->front(); } return o.kind == K_BIT ? (u64)o.b->front() : (u64)o.f->front(); }), o.c[0].v[0]);
                if (n && o.c[n - 1].known) EQ("back", value("back", [&] { if (how & 1) { const BitVector* cb = o.b.get(); const FitVector* cf = o.f.get(); return o.kind == K_BIT ? (u64)cb->back() : (u64)cf->back(); } return o.kind == K_BIT ? (u64)o.b->back() : (u64)o.f->back(); }), o.c[n - 1].v[0]);
                EQ("empty", value("empty", [&] { return (u64)(o.kind == K_BIT ? o.b->empty() : o.f->empty()); }), n == 0);
            }
        } else if (op.name == "copy") {
            Obj& d = obj[1 - s]; int h = (int)(op.arg(2) % 4);
            if (d.kind != o.kind) { drop(d); h &= 2; }
            r.arm(op);
            Out out = sut([&] { switch (o.kind) { case K_BIT: transfer(d.b, o.b, h); break; case K_FIT: transfer(d.f, o.f, h); break; case K_FIELDS: transfer(d.m, o.m, h); break; case K_MB1: transfer(d.m1, o.m1, h); break; case K_MB2: transfer(d.m2, o.m2, h); break; default: transfer(d.m3, o.m3, h); } });
            bool fired = alloc_fired(); disarm_alloc();
            if (out != Out::ok) {
                CHECK(fired && out == Out::bad_alloc, "unexpected-exception", "copy threw");
                check_all(o, "source of a failed copy"); if (d.kind >= 0 && h == 1) d.lost = true; return;
            }
            d.kind = o.kind; d.lost = false; d.width = o.width; d.fields = o.fields; d.c = o.c; d.shrunk = o.shrunk; d.built = o.built;
            if (h >= 2) { drop(o); probe("moved"); } else check_all(o, "source of a copy");
            check_all(d, "after copy or move");
        } else if (op.name == "hold") {      // a reference kept while the object is copied, then written through
            Obj& d = obj[1 - s]; if (!n || o.multi()) return; u64 i = (u64)op.arg(1) % n; if (d.kind != o.kind) drop(d); size_t f = (size_t)how % o.nf();
            must("a write through a reference older than a copy", [&] {
                auto put = [&](auto& dst, auto& src) { if (dst && how & 1) *dst = *src; else { dst.reset(); dst.reset(new std::decay_t<decltype(*src)>(*src)); } };
                if (o.kind == K_BIT) { auto ref = (*o.b)[i]; auto it = o.b->begin() + i; put(d.b, o.b); if (how & 2) ref = (bool)v[0]; else *it = (bool)v[0]; }
                else if (o.kind == K_FIT) { auto ref = (*o.f)[i]; auto it = o.f->begin() + (i64)i; put(d.f, o.f); if (how & 2) ref = v[0]; else *it = v[0]; }
                else { auto b = o.m->block(i); put(d.m, o.m); b.set_at(f, v[f]); }
            });
            d.kind = o.kind; d.lost = false; d.width = o.width; d.fields = o.fields; d.c = o.c; d.shrunk = o.shrunk; d.built = o.built; if (o.kind == K_FIELDS) o.c[i].v[f] = v[f]; else o.c[i] = Cell{v, true};
            probe("write_through_an_older_reference"); check_all(o, "after a write through a reference"); check_all(d, "copy, after a write through a reference into the original");
        } else if (op.name == "self") {      // assigned to itself, or swapped with the other object
            Obj& d = obj[1 - s]; bool sw = how % 3 == 0 && d.kind == o.kind && !d.lost;
            must(sw ? "a swap" : "an assignment to itself", [&] {
                auto go = [&](auto& x, auto& y) { if (!x) return; if (sw) { std::swap(*x, *y); return; } const auto& same = *x; if (how & 1) *x = same; else { auto* z = x.get(); std::vector<std::decay_t<decltype(*z)>> v; v.push_back(std::move(*z)); v.reserve(v.capacity() + 1); *z = std::move(v.front()); } };
                go(o.b, d.b); go(o.f, d.f); go(o.m, d.m); go(o.m1, d.m1); go(o.m2, d.m2); go(o.m3, d.m3);
            });
            if (sw) { std::swap(o.width, d.width); std::swap(o.fields, d.fields); std::swap(o.c, d.c); std::swap(o.shrunk, d.shrunk); std::swap(o.built, d.built); check_all(d, "after a swap"); probe("swapped"); } else probe("assigned_to_itself");
            check_all(o, "after a swap or an assignment to itself");
        } else if (op.name == "across") {    // an element assigned from an element of the other object
            Obj& d = obj[1 - s]; if (!n || d.kind != o.kind || o.kind > K_FIT || d.lost || d.c.empty()) return; u64 i = (u64)op.arg(1) % n, j = (u64)op.arg(2) % d.c.size(); if (!d.c[j].known || d.c[j].v[0] > o.mask()) return;
            must("an element assigned from another object's", [&] { if (o.kind == K_BIT) (*o.b)[i] = (*d.b)[j]; else (*o.f)[i] = (*d.f)[j]; });
            o.c[i] = d.c[j]; check_at(o, i, how, "after an assignment between objects"); if (i) check_at(o, i - 1, how, "neighbour"); check_at(o, i + 1, how, "neighbour"); check_at(d, j, how, "source of the assignment"); probe("assigned_across_objects");
        } else if (op.name == "walk") {
            auto go = [&](auto& m) { if (how & 1) walk_over<true>(o, m, (u64)op.arg(2), 30); else walk_over<false>(o, m, (u64)op.arg(2), 30); check_all(o, "after a walk"); }; if (o.kind == K_BIT) go(*o.b); else if (o.kind == K_FIT) go(*o.f);
        } else if (op.name == "all") { check_all(o, "full comparison"); check_all(obj[1 - s], "the other object"); }
    });
    for (auto& o : obj) { check_all(o, "at the end"); }
    must("destruction", [&] { for (auto& o : obj) drop(o); });
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 2000)) { p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), r.one_of<i64>({K_BIT, K_BIT, K_FIT, K_FIT, K_MB1, K_MB2, K_MB3}), (1ll << (r.chance(1, 4) ? 31 : 32)) + (i64)r.below(3000), r.range(0, 63)}); p.random_sched(r, false); return; }
    i64 kind = r.range(0, K_N - 1);
    if (r.chance(1, 60)) { // far beyond 64 K elements
        p.cfg["large"] = 1; auto size = [&] { return (i64)(r.chance(1, 3) ? 65536 + r.range(-70, 70) : 20000 + (i64)r.below(190000)); }; i64 seed = (i64)r.below(1u << 30);
        p.add(-1, "new", {0, kind, size(), r.range(0, 9), seed});
        for (int i = 6 + (int)r.below(8); i > 0; i--) {
            static const char* nm[8] = {"resize", "resizev", "reserve", "set", "push", "fill", "build", "copy"}; const char* o = nm[r.below(8)]; i64 z = size();
            p.add(-1, o, {0, z, *o == 'c' ? r.range(0, 1) : (i64)r.below(1u << 30), kind == K_FIELDS ? r.range(0, 143) : r.range(0, 11), size()});
            if (r.chance(1, 3)) p.fault(p.ops.back().id, "alloc", 1, r.chance(1, 2));
        }
        if (kind <= K_FIT) p.add(-1, "walk", {0, 0, (i64)r.below(1u << 30), r.range(0, 1)});
        p.random_sched(r, false); return;
    }
    p.add(-1, "new", {0, kind, (i64)r.size(1500), r.range(0, 9), (i64)r.below(1u << 30)});
    u64 n = 4 + r.below(r.chance(1, 5) ? (tier ? 600 : 250) : 60); bool two = r.chance(1, 4); u64 big = r.one_of<u64>({8, 70, 130, 520, 2400});
    i64 w[11]; for (auto& x : w) x = r.range(0, 6);
    static const char* names[11] = {"set", "push", "resize", "resizev", "assign", "fill", "reserve", "shrink", "build", "setref", "get"};
    w[0] += 3; w[1] += 4; w[4] = std::min<i64>(w[4], 1); w[2] = std::min<i64>(w[2], 2); w[3] = std::min<i64>(w[3], 3); w[7] = std::min<i64>(w[7], 1);
    i64 tot = 0; for (auto x : w) tot += x;
    for (u64 i = 0; i < n; i++) {
        int s = two ? (int)r.below(2) : 0;
        if (r.chance(1, 25)) { p.add(-1, "copy", {s, 0, r.range(0, 3)}); two = true; continue; }
        if (r.chance(1, 30)) { p.add(-1, "all", {s}); continue; }
        if (r.chance(1, 120)) { p.add(-1, "self", {s, 0, 0, r.range(0, 5)}); continue; }
        if (r.chance(1, 200)) { p.add(-1, "fields", {(i64)r.below(1u << 30), r.range(0, 59)}); continue; }
        if (kind <= K_FIELDS && r.chance(1, 40)) { p.add(-1, "hold", {s, (i64)r.below(1 << 16), (i64)r.below(1u << 30), r.range(0, 11)}); two = true; continue; }
        if (two && kind <= K_FIT && r.chance(1, 20)) { p.add(-1, "across", {s, (i64)r.below(1 << 16), (i64)r.below(1 << 16), r.range(0, 11)}); continue; }
        if (kind <= K_FIT && r.chance(1, 14)) { p.add(-1, "walk", {s, 0, (i64)r.below(1u << 30), r.range(0, 9)}); continue; }
        if (r.chance(1, 80)) { p.add(-1, "new", {s, r.chance(2, 3) ? kind : r.range(0, K_N - 1), (i64)r.size(1500), r.range(0, 9), (i64)r.below(1u << 30)}); continue; }
        i64 x = (i64)r.below((u64)tot); int k = 0; while (x >= w[k]) x -= w[k++];
        u64 a = k == 0 || k == 9 || k == 10 ? r.below(1 << 16) : r.size(big);
        if (k == 1) for (u64 m = r.chance(1, 3) ? 1 + r.below(70) : 1; m > 1 && p.ops.size() < 900; m--) p.add(-1, "push", {s, 0, (i64)r.below(1u << 30), r.range(0, 9)});
        p.add(-1, names[k], {s, (i64)a, (i64)r.below(1u << 30), kind == K_FIELDS ? r.range(0, 143) : r.range(0, 11), (i64)r.size(big)});
    }
    if (r.chance(3, 4)) for (u64 k = 1 + r.below(5); k > 0; k--) p.fault(r.pick(p.ops).id, r.chance(2, 3) ? "allocw" : "alloc", r.one_of<i64>({1, 1, 1, 2, 3}), r.chance(1, 3));
    if (r.chance(1, 3)) { u64 a = r.below(p.ops.size()); for (u64 i = a; i < p.ops.size() && i < a + 60; i++) p.fault(p.ops[i].id, "alloc", r.one_of<i64>({1, 1, 2}), 0); }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C04", gen, run};
