// One uniform face for every structure of the library: build it, change it, ask it everything, copy, move, save, load.
// Used by the scenarios that are about all structures at once (C01-C03, C15).
#pragma once
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "fields.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/sort.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/graph_util.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"

namespace sim {
struct Ans { // every answer of a structure, in a fixed order
    std::vector<u64> v;
    void operator()(u64 x) { v.push_back(x); }
    void str(std::string_view s) { v.push_back(s.size()); v.push_back(fnv(s.data(), s.size())); }
    bool operator==(const Ans& o) const { return v == o.v; }
};
inline std::string diff(const Ans& a, const Ans& b) {
    size_t i = 0; while (i < a.v.size() && i < b.v.size() && a.v[i] == b.v[i]) i++;
    return "answer " + S(i) + " of " + S(b.v.size()) + " is " + (i < a.v.size() ? S(a.v[i]) : "missing") + ", expected " + (i < b.v.size() ? S(b.v[i]) : "none");
}
struct Meta { u64 n = 0, k = 0; std::vector<u64> v, w; std::vector<std::string> q; std::shared_ptr<std::string> hold; bool f = false; };

struct Actor {
    int kind = -1; const char* name = "";
    virtual ~Actor() {}
    virtual bool has() const = 0;
    virtual void drop() = 0;
    virtual Out make(u64 seed, u64 size) = 0;
    virtual Out step(u64 seed) = 0;                      // an operation on the object's own behalf
    virtual Out answers(Ans& a, u64 density) = 0;        // everything it can be asked (`density` positions)
    virtual Out take(Actor& src, int how) = 0;           // 0 copy, 1 copy assignment, 2 move, 3 move assignment
    virtual Out swap(Actor& other) = 0;                  // other may be the object itself: an assignment to itself
    virtual bool saves() const { return false; }
    virtual Out save(std::ostream&) { return Out::ok; }
    virtual Out load(std::istream&, const Actor& like, int how) { return Out::ok; }   // how & 1: into the existing object
    virtual const Meta& meta() const = 0;
    // a reference into the object, kept while others copy it, then written or read through
    std::function<void(u64)> held;
    virtual Out hold(u64 seed) { return Out::ok; }
    Out write_held(u64 v) { if (!held) return Out::ok; auto h = std::move(held); held = nullptr; return sut([&] { h(v); }); }
};

template <class T> struct Holder : Actor {
    std::unique_ptr<T> s; Meta m;
    ~Holder() override { drop(); }
    bool has() const override { return (bool)s; }
    void drop() override { held = nullptr; Scope c; s.reset(); }
    const Meta& meta() const override { return m; }
    Out take(Actor& a, int how) override {
        Holder& o = static_cast<Holder&>(a); m = o.m; held = nullptr;
        Out out = sut([&] {
            if ((how & 1) && s) { if (how < 2) *s = *o.s; else *s = std::move(*o.s); }
            else { std::unique_ptr<T> t(how < 2 ? new T(*o.s) : new T(std::move(*o.s))); s = std::move(t); }
        });
        if (how >= 2) o.drop();
        if (out != Out::ok) drop();
        return out;
    }
    Out swap(Actor& a) override {
        Holder& o = static_cast<Holder&>(a); held = nullptr; o.held = nullptr; if (&o != this) std::swap(m, o.m);
        return sut([&] { if (&o == this) { const T& same = *s; *s = same; } else std::swap(*s, *o.s); });
    }
    const T& c() const { return *s; }
    u64 step_of(u64 n, u64 density) const { return 1 + n / (density ? density : 1); }
};

// ---------------------------------------------------------------- growable sequences
struct ABit : Holder<sim_ds::BitVector> {
    Out make(u64 seed, u64 size) override {
        drop(); Rng r(seed); auto b = bits_of(size, (i64)r.below(12), seed); int how = (int)r.below(3);
        return sut([&] { if (how == 0) s.reset(new sim_ds::BitVector(b)); else if (how == 1) { s.reset(new sim_ds::BitVector()); for (bool x : b) s->push_back(x); } else { s.reset(new sim_ds::BitVector(size + 1 + seed % 130, true)); for (size_t i = 0; i < b.size(); i++) (*s)[i] = b[i]; s->resize(size); } });
    }
    Out step(u64 seed) override {
        Rng r(seed); u64 n = s->size(), a = n ? r.below(n) : 0, b = r.below(n + 1), k = r.below(6), x = r.next();
        return sut([&] {
            switch (k) {
            case 0: for (u64 i = 0; i < 1 + x % 40; i++) s->push_back((x >> i) & 1); break;
            case 1: if (n) (*s)[a] = x & 1; break;
            case 2: if (a < b) s->fill(s->begin() + a, s->begin() + b, x & 1); break;
            case 3: s->resize((n + x % 100) % 500, (x >> 20) & 1); break;
            case 4: s->reserve(n + x % 600); break;
            default: if (x % 5) s->shrink_to_fit(); else s->assign(x % 300, (x >> 20) & 1); break;
            }
        });
    }
    Out hold(u64 seed) override {
        u64 n = s->size(); if (!n) return Out::ok; u64 i = seed % n;
        return sut([&] { if (seed / n % 2) { auto it = s->begin() + i; Unscope u; held = [it](u64 v) mutable { *it = v & 1; }; } else { auto ref = (*s)[i]; Unscope u; held = [ref](u64 v) mutable { ref = (bool)(v & 1); }; } });
    }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = c().size(); a(n); a(c().empty()); for (u64 i = 0, st = step_of(n, d); i < n; i += st) a((bool)c()[i]); if (n) { a((bool)c().back()); a((bool)c().front()); } u64 h = 0; if (d > 100) for (auto b : c()) h = h * 3 + (bool)b; a(h); }); }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new sim_ds::BitVector()); s->Read(is); }); }
};
struct AFit : Holder<sim_ds::FitVector> {
    u64 mask() const { return m.k >= 64 ? ~0ull : (1ull << m.k) - 1; }
    Out make(u64 seed, u64 size) override {
        drop(); m = Meta(); Rng r(seed); m.k = 1 + r.below(64); auto v = ints_of(size, (i64)r.below(10), seed, (unsigned)m.k); int how = (int)r.below(3);
        Out out = sut([&] { if (how == 0) s.reset(new sim_ds::FitVector(v)); else if (how == 1) { s.reset(new sim_ds::FitVector(m.k)); for (u64 x : v) s->push_back(x); } else { s.reset(new sim_ds::FitVector(m.k, v.size())); for (size_t i = 0; i < v.size(); i++) (*s)[i] = v[i]; } });
        if (out == Out::ok) m.k = s->unit_width();
        return out;
    }
    Out step(u64 seed) override {
        if (m.k == 0) return Out::ok;      // an empty list has element width 0
        Rng r(seed); u64 n = s->size(), a = n ? r.below(n) : 0, k = r.below(5), x = r.next(); u64 v = x & mask();
        return sut([&] {
            switch (k) {
            case 0: for (u64 i = 0; i < 1 + x % 20; i++) s->push_back((v + i) & mask()); break;
            case 1: if (n) (*s)[a] = v; break;
            case 2: s->resize((n + x % 70) % 300, v); break;
            case 3: s->reserve(n + x % 300); break;
            default: if (x % 4) { if (n) s->at(a) = v; } else s->assign(x % 200, v); break;
            }
        });
    }
    Out hold(u64 seed) override {
        u64 n = s->size(), k = mask(); if (!n || !m.k) return Out::ok;
        if (seed / n % 3 == 0) return sut([&] { auto it = s->begin() + (i64)(seed % n); Unscope u; held = [it, k](u64 v) { *it = v & k; }; });
        return sut([&] { auto ref = (*s)[seed % n]; Unscope u; auto r = std::make_shared<decltype(ref)>(ref); held = [r, k](u64 v) { *r = v & k; }; });
    }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = c().size(); a(n); a(c().unit_width()); a(c().empty()); for (u64 i = 0, st = step_of(n, d); i < n; i += st) a(c()[i]); if (n) a(c().back()); u64 h = 0; if (d > 100) for (u64 x : c()) h = h * 31 + x; a(h); }); }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if ((how & 1) && s) *s = sim_ds::FitVector(is); else s.reset(new sim_ds::FitVector(is)); }); }
};
struct AFields : Holder<sim_ds::MultipleVector> {
    static u64 get(const sim_ds::MultipleVector& x, u64 i, u64 k) { u64 v = 0; with_field(k, [&](auto id) { v = k & 1 ? (u64)x.block(i).template get<id()>() : (u64)x.nested_element<id()>(i); }); return v; }
    static void push(sim_ds::MultipleVector& x, const std::vector<u64>& v) { push_row(x, v, v.size()); }
    std::vector<u64> row(Rng& r) { std::vector<u64> v; for (u64 w : m.w) v.push_back(r.width_value((unsigned)w * 8)); return v; }
    Out make(u64 seed, u64 size) override {
        drop(); m = Meta(); Rng r(seed); u64 k = r.chance(1, 8) ? 5 + r.below(kFields - 4) : 1 + r.below(4); bool wide = r.chance(1, 2); while (m.w.size() < k) m.w.push_back(wide && k > 4 ? 8 : 1 + r.below(8)); if (k > 4) size = std::min<u64>(size, 12000);
        std::vector<std::vector<u64>> rows; for (u64 i = 0; i < size; i++) rows.push_back(row(r));
        return sut([&] { s.reset(new sim_ds::MultipleVector()); s->set_element_sizes(m.w); for (auto& v : rows) push(*s, v); });
    }
    Out step(u64 seed) override {
        Rng r(seed); u64 n = s->size(), a = n ? r.below(n) : 0, k = r.below(4), f = r.below(m.w.size()); auto v = row(r); u64 x = r.next();
        return sut([&] {
            switch (k) {
            case 0: for (u64 i = 0; i < 1 + x % 9; i++) push(*s, v); break;
            case 1: if (n) s->block(a).set_at(f, v[f]); break;
            case 2: s->resize((n + x % 30) % 200); break;
            default: s->reserve(n + x % 90); if (n) s->set_nested_element<0>(a, v[0]); break;
            }
        });
    }
    Out hold(u64 seed) override {
        u64 n = s->size(), f = seed % m.w.size(), k = m.w[f] >= 8 ? ~0ull : (1ull << 8 * m.w[f]) - 1; if (!n) return Out::ok;
        return sut([&] { auto b = s->block(seed / 8 % n); Unscope u; held = [b, f, k](u64 v) mutable { b.set_at(f, v & k); }; });
    }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = c().size(); a(n); a(c().block_size()); for (u64 k = 0; k < m.w.size(); k++) a(c().element_size(k)); for (u64 i = 0, st = step_of(n, d); i < n; i += st) for (u64 k = 0; k < m.w.size(); k++) a(get(c(), i, k)); }); }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().StoreTo(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new sim_ds::MultipleVector()); s->LoadFrom(is); }); }
};
template <unsigned U> struct AMulti : Holder<sim_ds::MultiBitVector<U>> {
    using B = Holder<sim_ds::MultiBitVector<U>>; using B::s; using B::m; using B::c;
    Out make(u64 seed, u64 size) override {
        B::drop(); m = Meta(); Rng r(seed); u64 lim = 1 + r.below(1u << U); int sh = (int)r.below(3); u64 fav = r.below(lim);
        for (u64 i = 0; i < size; i++) m.v.push_back(sh == 0 ? r.below(lim) : sh == 1 ? (r.chance(9, 10) ? fav : r.below(lim)) : (i / 50) % lim);
        m.f = true;
        return sut([&] { s.reset(new sim_ds::MultiBitVector<U>()); for (u64 i = 0; i < m.v.size(); i++) s->set(i, (uint8_t)m.v[i]); s->build(); });
    }
    Out step(u64 seed) override {
        Rng r(seed); u64 k = r.below(3); u64 x = r.below(1u << U);
        if (k == 0) { m.v.push_back(x); u64 i = m.v.size() - 1; m.f = false; return sut([&] { s->set(i, (uint8_t)x); }); }
        if (k == 1 && !m.v.empty()) { u64 i = r.below(m.v.size()); m.v[i] = x; m.f = false; return sut([&] { s->set(i, (uint8_t)x); }); }
        m.f = true; return sut([&] { s->build(); });
    }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = m.v.size(); for (u64 i = 0, st = B::step_of(n, d); i < n; i += st) { u64 x = c()[i]; a(x); if (m.f && x) a(c().rank(i)); } }); }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new sim_ds::MultiBitVector<U>()); s->Read(is); }); }
};
// ---------------------------------------------------------------- static structures
template <bool Sel> struct ASucc : Holder<sim_ds::SuccinctBitVector<Sel>> {
    using T = sim_ds::SuccinctBitVector<Sel>; using B = Holder<T>; using B::s; using B::m; using B::c;
    Out fill(u64 seed, u64 size, bool assign) {
        m = Meta(); Rng r(seed); auto b = bits_of(size, (i64)r.below(12), seed); m.n = size; for (bool x : b) m.k += x; int how = (int)r.below(2);
        return sut([&] { sim_ds::BitVector v(b); if (assign) *s = how ? T(v) : T(std::move(v)); else s.reset(how ? new T(v) : new T(std::move(v))); });
    }
    Out make(u64 seed, u64 size) override { B::drop(); return fill(seed, size, false); }
    Out step(u64 seed) override { return fill(seed, Rng(seed).size(300), true); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] {
            u64 n = m.n; a(c().size()); a(c().num_blocks());
            for (u64 i = 0, st = B::step_of(n, d); i < n; i += st) { a(c()[i]); a(c().rank(i)); a(c().rank_0(i)); }
            a(c().rank_1(n));
            if constexpr (Sel) { for (u64 i = 0, st = B::step_of(m.k, d); i < m.k; i += st) a(c().select(i)); if (m.k) a(c().select(m.k - 1)); }
        });
    }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override {
        m = like.meta();
        return sut([&] { if ((how & 1) && s) { if (how & 2) s->Read(is); else *s = T(is); } else if (how & 2) s.reset(new T(is)); else { s.reset(new T()); s->Read(is); } });
    }
};
struct ADac : Holder<sim_ds::DacVector> {
    using T = sim_ds::DacVector;
    Out fill(u64 seed, u64 size, bool assign) {
        m = Meta(); Rng r(seed); unsigned mb = r.chance(1, 2) ? 64 : 1 + (unsigned)r.below(64); auto v = ints_of(size, (i64)r.below(10), seed, mb); m.n = size; int how = (int)r.below(3);
        std::vector<size_t> w; if (how == 0) { unsigned left = 64, most = r.chance(1, 4) ? 2 : 20; while (left) { unsigned x = 1 + (unsigned)r.below(std::min(left, most)); w.push_back(x); left -= x; } if (r.chance(1, 20)) w.push_back(33 + r.below(32)); }
        return sut([&] { if (assign) *s = how ? T(v) : T(v, w); else s.reset(how ? new T(v) : new T(v, w)); });
    }
    Out make(u64 seed, u64 size) override { drop(); return fill(seed, size, false); }
    Out step(u64 seed) override { return fill(seed, Rng(seed).size(120), true); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] {
            u64 n = m.n; a(c().size()); a(c().empty()); a(c().num_layers()); a(c().size_in_bytes());
            for (u64 i = 0, st = step_of(n, d); i < n; i += st) { a(c()[i]); a(c().depth(i)); }
            if (n) { a(c().front()); a(c().back()); }
            if (d > 100) { u64 h = 0; for (auto it = c().begin(); it != c().end(); ++it) h = h * 31 + *it; a(h); }
        });
    }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override {
        m = like.meta();
        return sut([&] { if ((how & 1) && s) { if (how & 2) s->Read(is); else *s = T(is); } else if (how & 2) s.reset(new T(is)); else { s.reset(new T()); s->Read(is); } });
    }
};
struct AWave : Holder<sim_ds::WaveletTree> {
    using T = sim_ds::WaveletTree;
    std::vector<u64> content(u64 seed, u64 size) {
        m = Meta(); Rng r(seed); if (!size) size = 1; u64 lim = r.one_of<u64>({1, 2, 3, 5, 16, 17, 100, 256}); int sh = (int)r.below(3);
        std::vector<u64> v; for (u64 i = 0; i < size; i++) v.push_back(sh == 0 ? r.below(lim) : sh == 1 ? (r.chance(9, 10) ? lim / 2 : r.below(lim)) : (i / 30) % lim);
        m.n = size; m.v = v; return v;
    }
    Out make(u64 seed, u64 size) override { drop(); auto v = content(seed, size); return sut([&] { s.reset(new T(v)); }); }
    Out step(u64 seed) override { auto v = content(seed, Rng(seed).size(150)); return sut([&] { *s = T(v); }); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] { u64 n = m.n; a(c().size()); for (u64 i = 0, st = step_of(n, d); i < n; i += st) { a(c()[i]); a(c().rank(i)); auto p = c().AccessAndRank(i); a(p.first); a(p.second); a(c().rank((uint8_t)m.v[i], i)); } });
    }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new T(std::vector<uint8_t>{1, 0, (uint8_t)(how * 50)})); s->Read(is); }); }
};
inline std::vector<std::string> key_set(u64 seed, u64 n, std::vector<std::string>& queries) {
    Rng r(seed); i64 alpha = (i64)r.below(7); u64 mx = r.one_of<u64>({1, 3, 8, 20}); if (r.chance(1, 24)) mx = 280; std::string base = text_of(150 + 2 * mx, alpha, (i64)r.below(6), seed); std::set<std::string> s;
    if (n >= 20000) { // all strings of three letters of an alphabet
        u64 A = 2; while (A * A * A < n) A++; int lo = 1 + (int)r.below(254 - A); for (u64 a = 0; a < A; a++) for (u64 b = 0; b < A; b++) for (u64 c = 0; c < A; c++) s.insert(std::string{(char)(lo + a), (char)(lo + b), (char)(lo + c)});
        n = 0;
    }
    for (u64 i = 0; i < n; i++) { std::string k; if (r.chance(1, 2)) k = base.substr(r.below(150), 1 + r.below(mx)); else while (k.size() < 1 + i % mx) k += (char)letter(r, alpha); s.insert(k); }
    std::vector<std::string> keys(s.begin(), s.end()); queries = keys;
    for (u64 i = 0; i < keys.size() && i < 30; i++) { const std::string& k = r.pick(keys); queries.push_back(k.substr(0, r.below(k.size() + 1))); queries.push_back(k + (char)r.below(256)); std::string t = k; t[r.below(t.size())] = (char)r.below(256); queries.push_back(t); }
    queries.push_back("");
    return keys;
}
template <class T, bool Dict> struct ASamc : Holder<T> {
    using B = Holder<T>; using B::s; using B::m; using B::c;
    Out fill(u64 seed, u64 size, bool assign) { m = Meta(); auto keys = key_set(seed, size, m.q); m.n = keys.size(); return sut([&] { if (assign) *s = T(keys.begin(), keys.end()); else s.reset(new T(keys.begin(), keys.end())); }); }
    Out make(u64 seed, u64 size) override { B::drop(); return fill(seed, size >= 20000 ? size : 1 + size % 200, false); }
    Out step(u64 seed) override { return fill(seed, 1 + Rng(seed).size(50), true); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] {
            for (u64 i = 0, st = B::step_of(m.q.size(), d); i < m.q.size(); i += st) { if constexpr (Dict) a(c().lookup(m.q[i])); else a(c().accept(m.q[i])); }
            if constexpr (Dict) for (u64 i = 0, st = B::step_of(m.n, d); i < m.n; i += st) a.str(c().access(i));
        });
    }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new T()); s->Read(is); }); }
};
struct Mute { std::streambuf* b; struct Null : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } }; static Null& null() { static Null n; return n; } Mute() : b(std::cout.rdbuf(&null())) {} };
struct ASuffix : Holder<sim_ds::SuffixArray> {
    using T = sim_ds::SuffixArray;
    std::string content(u64 seed, u64 size) { m = Meta(); Rng r(seed); auto t = text_of(size, (i64)r.below(7), (i64)r.below(6), seed); if (size && r.chance(1, 3)) for (u64 k = 1 + r.below(4); k > 0; k--) t[r.below(size)] = (char)r.one_of<int>({0, 0, 255, 128, 127, 1}); m.n = t.size(); return t; }
    Out make(u64 seed, u64 size) override { drop(); auto t = content(seed, size); return sut([&] { s.reset(new T(t)); }); }
    Out step(u64 seed) override { auto t = content(seed, Rng(seed).size(60)); return sut([&] { *s = T(t); }); }
    static void ints(Ans& a, const std::string& img, u64 d) { std::istringstream is(img); sim_ds::FitVector f(is); u64 n = f.size(); a(n); for (u64 i = 0, st = 1 + n / (d ? d : 1); i < n; i += st) a(f[i]); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] {
            std::ostringstream x, y; if (m.n) { c().WriteSA(x); c().WriteLCP(y); ints(a, x.str(), d); ints(a, y.str(), d); }
            for (u64 i = 0, st = step_of(m.n, d); i < m.n; i += st) { a(c().char_at(i)); a.str(c().suffix(i)); a.str(c().suffix(i, 3)); }
        });
    }
    bool saves() const override { return true; }
    Out save(std::ostream& os) override { return sut([&] { c().Write(os); }); }
    Out load(std::istream& is, const Actor& like, int how) override { m = like.meta(); return sut([&] { if (!(how & 1) || !s) s.reset(new T()); s->Read(is); }); }
};
// ---------------------------------------------------------------- structures without an image
template <class T, unsigned VB> struct AHash : Holder<T> {
    using B = Holder<T>; using B::s; using B::m; using B::c;
    Out make(u64 seed, u64 size) override {
        B::drop(); m = Meta(); Rng r(seed); m.k = 4 + r.below(61); u64 n = size % 60; for (u64 i = 0; i < 40; i++) m.v.push_back(r.next() & (m.k >= 64 ? ~0ull : (1ull << m.k) - 1));
        std::vector<u64> vals; for (u64 i = 0; i < n; i++) vals.push_back(r.next() & 0xffff);
        return sut([&] { s.reset(new T((unsigned)m.k, (size_t)1 << (seed % 5))); if constexpr (VB == 0) s->set_value_width(16); for (u64 i = 0; i < n; i++) s->set(m.v[i % m.v.size()], vals[i]); });
    }
    Out step(u64 seed) override { Rng r(seed); u64 k = r.pick(m.v), v = r.next() & 0xffff, w = r.below(6); return sut([&] { if (w < 3) s->set(k, v); else if (w < 5) s->erase(k); else s->reserve(1 + v % 60); }); }
    Out answers(Ans& a, u64 d) override { return sut([&] { a(c().size()); for (u64 i = 0, st = B::step_of(m.v.size(), d); i < m.v.size(); i += st) { auto g = c().get(m.v[i]); a(g.first); a(g.first ? (u64)g.second : 0); } }); }
};
struct ARewritable : Holder<sim_ds::CDRWVector> {
    using T = sim_ds::CDRWVector;
    Out make(u64 seed, u64 size) override { drop(); auto v = ints_of(size % 150, (i64)(seed % 10), seed); return sut([&] { s.reset(new T()); for (u64 x : v) s->push_back(x); }); }
    Out step(u64 seed) override { Rng r(seed); u64 n = s->size(), i = n ? r.below(n) : 0, v = r.width_value(64), w = r.below(6); return sut([&] { if (w < 3 && n) s->set(i, v); else if (w < 5) s->push_back(v); else s->reserve(n + v % 50); }); }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = c().size(); a(n); for (u64 i = 0, st = step_of(n, d); i < n; i += st) a(c().get(i)); }); }
};
struct ATrie : Holder<sim_ds::graph_util::Trie<u64>> {
    using T = sim_ds::graph_util::Trie<u64>;
    static std::string key(Rng& r) { std::string k; for (u64 n = r.below(6); n > 0; n--) k += (char)('a' + r.below(4)); return k; }
    Out make(u64 seed, u64 size) override { drop(); m = Meta(); Rng r(seed); for (u64 i = 0; i < size % 40; i++) m.q.push_back(key(r)); return sut([&] { s.reset(new T()); u64 i = 0; for (auto& k : m.q) s->insert(k, seed % 1000 + i++); }); }
    Out step(u64 seed) override { Rng r(seed); std::string k = key(r); m.q.push_back(k); u64 v = r.below(1000); return sut([&] { s->insert(k, v); }); }
    Out answers(Ans& a, u64 d) override {
        return sut([&] {
            a(s->size()); for (auto& k : m.q) { auto* p = s->traverse(k); a(p ? *p : ~0ull); }
            u64 h = 0, n = 0; s->dfs([&](const auto& x, size_t depth) { h = h * 31 + depth * 2 + x.terminal(); n++; }); a(h); a(n);
            h = 0; s->bfs([&](const auto& x, size_t depth) { h = h * 31 + depth * 2 + x.terminal(); }); a(h);
        });
    }
};
template <class T> struct AHeap : Holder<T> {
    using B = Holder<T>; using B::s; using B::m; using B::c;
    Out make(u64 seed, u64 size) override { B::drop(); auto v = ints_of(size % 200, (i64)(seed % 10), seed); return sut([&] { s.reset(new T(v)); }); }
    Out step(u64 seed) override { Rng r(seed); u64 v = r.width_value(64), w = r.below(3), n = s->size(); return sut([&] { if (w && n) s->pop(); else s->push(v); }); }
    Out hold(u64 seed) override { u64 n = s->size(); if (!n) return Out::ok; return sut([&] { u64& x = s->value_reference(1 + seed % n); Unscope u; B::held = [&x](u64 v) { x = v; }; }); }
    Out answers(Ans& a, u64) override { std::vector<u64> v; v.reserve(400); Out out = sut([&] { u64 n = s->size(); a(n); if (n) a(s->front()); for (u64 i = 1; i <= n; i++) v.push_back(s->value(i)); }); std::sort(v.begin(), v.end()); for (u64 x : v) a(x); return out; }
};
template <class T> struct AInit : Holder<T> {
    using B = Holder<T>; using B::s; using B::m; using B::c;
    Out make(u64 seed, u64 size) override { B::drop(); return sut([&] { if constexpr (std::is_constructible_v<T, size_t, u64>) s.reset(new T(1 + size % 100, seed % 1000)); else s.reset(new T((int)(seed % 1000))); }); }
    Out step(u64 seed) override { Rng r(seed); u64 i = r.below(s->size()), v = r.below(1000), w = r.below(6); return sut([&] { if (w) s->set(i, v); else s->fill(v); }); }
    Out hold(u64 seed) override {
        if constexpr (!std::is_constructible_v<T, size_t, u64>) { u64 i = seed % s->size(); return sut([&] { auto ref = (*s)[i]; Unscope u; B::held = [ref](u64 v) mutable { ref = (typename T::value_type)(v % 1000); }; }); }
        return Out::ok;
    }
    Out answers(Ans& a, u64 d) override { return sut([&] { u64 n = s->size(); a(n); for (u64 i = 0, st = B::step_of(n, d); i < n; i += st) a((u64)c().get(i)); }); }
};
struct AOracle : Holder<sim_ds::FactorOracle> {
    using T = sim_ds::FactorOracle;
    Out fill(u64 seed, u64 size, bool assign) {
        m = Meta(); Rng r(seed); i64 alpha = (i64)r.below(7); m.hold = std::make_shared<std::string>(text_of(size, alpha, (i64)r.below(6), seed)); const std::string& t = *m.hold;
        for (int i = 0; i < 20; i++) { u64 a = r.below(t.size() + 1); std::string q = t.substr(a, r.below(20)); if (i & 1) q += (char)letter(r, alpha); m.q.push_back(q); }
        auto h = m.hold; return sut([&] { if (assign) *s = T(*h); else s.reset(new T(*h)); });
    }
    Out make(u64 seed, u64 size) override { drop(); return fill(seed, size % 100, false); }
    Out step(u64 seed) override { return fill(seed, Rng(seed).size(50), true); }
    Out answers(Ans& a, u64) override { return sut([&] { for (auto& q : m.q) a(c().accept(q)); }); }
};
template <class T> struct ASearch : Holder<T> {
    using B = Holder<T>; using B::s; using B::m; using B::c;
    Out fill(u64 seed, u64 size) {
        m = Meta(); Rng r(seed); i64 alpha = r.one_of<i64>({0, 1, 1, 2, 3, 5}); m.hold = std::make_shared<std::string>(text_of(1 + size % 12, alpha, (i64)r.below(6), seed)); const std::string& k = *m.hold;
        for (int i = 0; i < 3; i++) { std::string t; while (t.size() < 30) { t += k.substr(0, 1 + r.below(k.size())); if (r.chance(1, 3)) t += k; if (r.chance(1, 4)) t += (char)letter(r, alpha); } m.q.push_back(t); }
        auto h = m.hold; return sut([&] { s.reset(new T(*h)); });
    }
    Out make(u64 seed, u64 size) override { B::drop(); return fill(seed, size); }
    Out step(u64 seed) override { return fill(seed, Rng(seed).size(12)); }
    Out answers(Ans& a, u64) override { return sut([&] { for (auto& t : m.q) { auto f = c().find_all(t); a(f.size()); for (auto x : f) a(x); } }); }
};
struct ASort : Holder<std::vector<u64>> {    // a caller's own range, sorted now and then
    Out make(u64 seed, u64 size) override { drop(); auto v = ints_of(size % 80, (i64)(seed % 10), seed); return sut([&] { s.reset(new std::vector<u64>(v)); }); }
    Out step(u64 seed) override {
        Rng r(seed); u64 n = s->size(); for (u64 i = 0; i < 5 && n; i++) (*s)[r.below(n)] = r.next(); u64 w = r.below(3);
        return sut([&] { if (w == 0) sim_ds::HeapSort(s->begin(), s->end()); else if (w == 1) sim_ds::HeapSort(s->begin(), s->end(), std::greater<u64>()); else sim_ds::HeapSort(s->begin(), s->end(), [](u64 a, u64 b) { return a < b; }); });
    }
    Out answers(Ans& a, u64) override { for (u64 x : *s) a(x); return Out::ok; }
};

enum { A_BIT, A_FIT, A_FIELDS, A_MB1, A_MB2, A_MB3, A_SEL, A_RANK, A_DAC, A_WAVE, A_SAMC32, A_SAMC64, A_SAMCLEG, A_DICT32, A_DICT64, A_SUFFIX, A_SAVED,
       A_HASH = A_SAVED, A_HASHV, A_REWR, A_TRIE, A_MIN, A_MAX, A_INIT, A_FOLK, A_ORACLE, A_SIMPLE, A_KMP, A_BM, A_BOM, A_TURBO, A_QS, A_MS, A_SORT, A_N };
inline std::unique_ptr<Actor> actor(int kind) {
    using namespace sim_ds; namespace pm = sim_ds::pattern_matching; Actor* a = nullptr; const char* n = "";
    switch (kind) {
    case A_BIT: a = new ABit; n = "BitVector"; break; case A_FIT: a = new AFit; n = "FitVector"; break; case A_FIELDS: a = new AFields; n = "MultipleVector"; break;
    case A_MB1: a = new AMulti<1>; n = "MultiBitVector<1>"; break; case A_MB2: a = new AMulti<2>; n = "MultiBitVector<2>"; break; case A_MB3: a = new AMulti<3>; n = "MultiBitVector<3>"; break;
    case A_SEL: a = new ASucc<true>; n = "SuccinctBitVector<true>"; break; case A_RANK: a = new ASucc<false>; n = "SuccinctBitVector<false>"; break;
    case A_DAC: a = new ADac; n = "DacVector"; break; case A_WAVE: a = new AWave; n = "WaveletTree"; break;
    case A_SAMC32: a = new ASamc<Samc<uint32_t>, false>; n = "Samc<uint32_t>"; break; case A_SAMC64: a = new ASamc<Samc<uint64_t>, false>; n = "Samc<uint64_t>"; break; case A_SAMCLEG: a = new ASamc<Samc<uint32_t, true>, false>; n = "Samc<uint32_t,legacy>"; break;
    case A_DICT32: a = new ASamc<SamcDict<uint32_t>, true>; n = "SamcDict<uint32_t>"; break; case A_DICT64: a = new ASamc<SamcDict<uint64_t>, true>; n = "SamcDict<uint64_t>"; break;
    case A_SUFFIX: a = new ASuffix; n = "SuffixArray"; break;
    case A_HASH: a = new AHash<CHT<16>, 16>; n = "CHT<16>"; break; case A_HASHV: a = new AHash<CHT<0>, 0>; n = "CHT<0>"; break; case A_REWR: a = new ARewritable; n = "CDRWVector"; break;
    case A_TRIE: a = new ATrie; n = "Trie"; break; case A_MIN: a = new AHeap<MinHeap>; n = "MinHeap"; break; case A_MAX: a = new AHeap<MaxHeap>; n = "MaxHeap"; break;
    case A_INIT: a = new AInit<InitializableArray<int, 33>>; n = "InitializableArray"; break; case A_FOLK: a = new AInit<InitializableArrayFolklore<u64>>; n = "InitializableArrayFolklore"; break;
    case A_ORACLE: a = new AOracle; n = "FactorOracle"; break;
    case A_SIMPLE: a = new ASearch<pm::Simple>; n = "Simple"; break; case A_KMP: a = new ASearch<pm::Kmp>; n = "Kmp"; break; case A_BM: a = new ASearch<pm::Bm>; n = "Bm"; break; case A_BOM: a = new ASearch<pm::Bom>; n = "Bom"; break;
    case A_TURBO: a = new ASearch<pm::TurboBom>; n = "TurboBom"; break; case A_QS: a = new ASearch<pm::SundayQS>; n = "SundayQS"; break; case A_MS: a = new ASearch<pm::SundayMS>; n = "SundayMS"; break;
    default: a = new ASort; n = "HeapSort"; break;
    }
    a->kind = kind; a->name = n; return std::unique_ptr<Actor>(a);
}
// now and then one structure far beyond 64 K elements and bytes
inline i64 large_kind(Rng& r) { if (r.chance(2, 3)) return r.range(A_BIT, A_WAVE); return r.one_of<i64>({A_SAMC32, A_SAMC64, A_DICT32, A_DICT64, A_SUFFIX, A_SUFFIX}); }
inline i64 large_size(Rng& r, i64 k) { if (k >= A_SAMC32) return 60000 + (i64)r.below(k == A_SUFFIX ? 80000 : 20000); u64 n = 20000 + r.below(r.chance(1, 2) ? 60000 : 130000); if (r.chance(1, 8) && (k == A_BIT || k == A_FIT || k == A_FIELDS || k == A_RANK)) n *= 12; return (i64)(k == A_BIT || k == A_SEL || k == A_RANK ? n * 6 : k == A_WAVE ? n / 2 : k == A_FIELDS ? n / 4 : n); }
inline void large_budget(const Plan& p) { if (p.get("large")) large_run(); }
inline Ans all_answers(Actor& a, u64 density = 200) {
    Ans x; x.v.reserve(1500); Out o = a.answers(x, density);
    if (o != Out::ok) fail("unexpected-exception", std::string(a.name) + ": a query threw " + out_name(o) + " (" + last_out().what + ")");
    return x;
}
inline std::string image_of(Actor& a, int mode, u64 seed) {     // what a fault-free save writes
    SimOut so(~0ull >> 1, false, mode, seed); std::ostream os(&so); Out o = a.save(os);
    if (o != Out::ok || !os.good()) fail("unexpected-exception", std::string(a.name) + ": a save without a fault " + (o != Out::ok ? std::string("threw ") + last_out().what : "left a failed stream"));
    os.flush(); so.finish(); return so.got;
}
} // namespace sim
