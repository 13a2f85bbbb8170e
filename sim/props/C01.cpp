// C01: what was saved loads back as itself, through any stream fragmentation, into any target, one structure after another.
#include "actors.hpp"
using namespace sim;

namespace {
enum { NSLOT = 8 };
std::unique_ptr<Actor> slot[NSLOT], loaded[NSLOT];
struct Rec { int from; std::string image; Ans ans; size_t begin, end; std::unique_ptr<Actor> meta; };
// Structures of more bits than 32-bit numbers reach: saved, loaded, compared where they hold something, saved again.
struct Same : std::streambuf {  // accepts exactly the bytes of an image
    const std::string& want; size_t pos = 0; bool bad = false;
    explicit Same(const std::string& w) : want(w) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override { Unscope u; if (pos + (size_t)n > want.size() || memcmp(want.data() + pos, s, (size_t)n)) bad = true; pos += (size_t)n; return n; }
    int_type overflow(int_type c) override { char ch = (char)c; if (c != traits_type::eof()) xsputn(&ch, 1); return traits_type::not_eof(c); }
};
template <class T, class Make, class Ask> void huge_one(const char* nm, const Op& op, Make make, Ask ask) {
    T* a = nullptr; must("construction", [&] { a = make(); });
    auto before = ask(*a); SimOut so(~0ull >> 1, false, 0, 1); so.got.reserve((u64)op.arg(2) / 8 * 5 / 4 + 4096); { std::ostream os(&so); must("save", [&] { a->Write(os); }); CHECK(os.good(), "unexpected-exception", std::string(nm) + ": saving failed without a fault"); os.write("tail", 4); }
    std::string data; data.swap(so.got); size_t len = data.size() - 4; SimIn si(data, ~0ull >> 1, false, (int)(op.arg(3) & 1), (u64)op.arg(0)); std::istream is(&si); T* b = nullptr;
    must("load", [&] { if constexpr (std::is_same_v<T, sim_ds::FitVector>) b = new T(is); else if constexpr (std::is_same_v<T, sim_ds::BitVector>) { b = new T(); b->Read(is); } else if (op.arg(3) & 2) b = new T(is); else { b = new T(); b->Read(is); } });
    CHECK(!is.fail(), "stream-state", std::string(nm) + ": loading a complete image left a failed stream");
    CHECK(si.consumed() == len, "wrong-extent", std::string(nm) + ": loading consumed " + S(si.consumed()) + " bytes of an image of " + S(len));
    auto after = ask(*b); CHECK(before == after, "wrong-answer", std::string(nm) + ": the loaded structure answers differently");
    data.resize(len); Same sm(data); { std::ostream os(&sm); must("save", [&] { b->Write(os); }); } CHECK(!sm.bad && sm.pos == len, "wrong-image", std::string(nm) + ": saving the loaded structure writes other bytes");
    must("destruction", [&] { delete a; delete b; }); probe("beyond_32_bits");
}
void huge(const Op& op) {
    huge_run(); Rng q((u64)op.arg(0)); u64 n = (u64)op.arg(2) + q.below(3000); std::vector<u64> pos; u64 w = 1;
    if (op.arg(1) % 4 == 1) { w = 1 + q.below(64); n = n / w + 3; }
    for (u64 e = 7; e < 33; e++) for (i64 d = -1; d <= 1; d++) if (u64 i = ((1ull << e) / w) + (u64)d; i < n) pos.push_back(i);
    for (int i = 0; i < 40; i++) pos.push_back(q.below(n));
    pos.push_back(n - 1); u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; using V = std::vector<u64>;
    auto bits = [&] { sim_ds::BitVector* v = new sim_ds::BitVector(n); for (u64 i : pos) (*v)[i] = true; return v; };
    auto around = [&](V& v, auto f) { must("queries", [&] { for (u64 i : pos) for (u64 j = i ? i - 1 : 0; j <= i + 1 && j < n; j++) v.push_back((u64)f(j)); }); };
    switch (op.arg(1) % 4) {
    case 0: huge_one<sim_ds::BitVector>("BitVector", op, bits, [&](const sim_ds::BitVector& x) { V v; v.push_back(x.size()); around(v, [&](u64 i) { return (bool)x[i]; }); return v; }); break;
    case 1: huge_one<sim_ds::FitVector>("FitVector", op, [&] { sim_ds::FitVector* f = new sim_ds::FitVector((size_t)w, (size_t)n); for (u64 i : pos) (*f)[i] = (i * 0x9e3779b97f4a7c15ull | 1) & m; return f; }, [&](const sim_ds::FitVector& x) { V v; v.push_back(x.size()); around(v, [&](u64 i) { return (u64)x[i]; }); return v; }); break;
    default: huge_one<sim_ds::SuccinctBitVector<true>>("SuccinctBitVector", op, [&] { sim_ds::BitVector* b = bits(); auto* s = new sim_ds::SuccinctBitVector<true>(std::move(*b)); delete b; return s; }, [&](const sim_ds::SuccinctBitVector<true>& x) { V v; v.push_back(x.size()); around(v, [&](u64 i) { return x.rank(i) * 2 + x[i]; }); must("select", [&] { std::set<u64> d(pos.begin(), pos.end()); for (u64 k = 0; k < d.size(); k++) v.push_back(x.select(k)); }); return v; });
    }
}
void run(Run& r) {
    Mute mute; const Plan& p = r.plan; large_budget(p);
    std::vector<Rec> log; size_t next = 0;
    SimOut so(~0ull >> 1, false, (int)p.get("outmode") % 3, (u64)p.get("seed2")); std::ostream os(&so);
    std::string data; std::unique_ptr<SimIn> si; std::unique_ptr<std::istream> is;
    if (p.get("exceptions") & 1) os.exceptions(std::ios::failbit | std::ios::badbit);
    r.drive([&](const Op& op) {
        if (op.name == "huge") { huge(op); return; }
        int k = (int)((u64)op.arg(0) % NSLOT); auto& s = slot[k]; auto& l = loaded[k];
        if (op.name == "make") {
            if (s) s->drop(); s = actor((int)((u64)op.arg(1) % A_SAVED)); Out o = s->make((u64)op.arg(2), (u64)op.arg(3));
            if (o != Out::ok) fail("unexpected-exception", std::string(s->name) + ": construction threw " + last_out().what);
        } else if (op.name == "step") {
            if (s && s->has() && s->step((u64)op.arg(1)) != Out::ok) fail("unexpected-exception", std::string(s->name) + ": an operation threw " + last_out().what);
        } else if (op.name == "save") {
            if (!s || !s->has() || si) return;
            Rec x; x.from = k; x.ans = all_answers(*s); x.begin = log.empty() ? 0 : log.back().end; x.image = image_of(*s, (int)(op.arg(1) % 3), (u64)op.arg(1));
            Out o = s->save(os); if (o != Out::ok || !os.good()) fail("unexpected-exception", std::string(s->name) + ": saving into the log failed without a fault");
            x.end = x.begin + x.image.size(); x.meta = actor(s->kind); if (x.meta->take(*s, 0) != Out::ok) fail("unexpected-exception", std::string(s->name) + ": copying threw");
            Ans again = all_answers(*s); if (!(again == x.ans)) fail("wrong-answer", std::string(s->name) + ": saving changed the object: " + diff(again, x.ans));
            log.push_back(std::move(x));
        } else if (op.name == "load") {
            if (next >= log.size()) return;
            if (!si) {
                os.flush(); so.finish(); data = so.got; std::string want; for (auto& x : log) want += x.image;
                if (data != want) fail("wrong-answer", "the log of " + S(log.size()) + " structures does not hold exactly their images: " + S(data.size()) + " bytes, expected " + S(want.size()));
                if (p.get("tail")) data += std::string((size_t)p.get("tail"), (char)0xee);
                si.reset(new SimIn(data, ~0ull >> 1, false, (int)p.get("inmode") % 4, (u64)p.get("seed2") + 1)); is.reset(new std::istream(si.get()));
                if (p.get("exceptions") & 2) is->exceptions(std::ios::failbit | std::ios::badbit);
            }
            Rec& x = log[next++]; const char* nm = x.meta->name; bool used = op.arg(2) & 1;
            if (!l || l->kind != x.meta->kind || !used) { if (l) l->drop(); l = actor(x.meta->kind); }
            if (used && !l->has()) { if (l->make((u64)op.arg(3), (u64)op.arg(4)) != Out::ok) fail("unexpected-exception", std::string(nm) + ": construction threw"); }
            if (used) probe("loaded_into_a_used_object");
            Out o = l->load(*is, *x.meta, (int)op.arg(2) & 3);
            if (o != Out::ok) fail("unexpected-exception", std::string(nm) + ": loading threw " + out_name(o) + " (" + last_out().what + ")");
            if (is->fail()) fail("stream-state", std::string(nm) + ": loading a complete image left a failed stream");
            if (si->consumed() != x.end) fail("wrong-extent", std::string(nm) + ": loading consumed " + S(si->consumed() - x.begin) + " bytes of an image of " + S(x.image.size()));
            Ans a = all_answers(*l); if (!(a == x.ans)) fail("wrong-answer", std::string(nm) + ": the loaded structure answers differently: " + diff(a, x.ans));
            std::string img = image_of(*l, (int)(op.arg(2) % 3), (u64)op.arg(3)); if (img != x.image) { size_t i = 0; while (i < img.size() && i < x.image.size() && img[i] == x.image[i]) i++; fail("wrong-image", std::string(nm) + ": saving the loaded structure writes other bytes (" + S(img.size()) + ", expected " + S(x.image.size()) + "; first difference at " + S(i) + ")"); }
            probe("loaded_and_compared");
            for (i64 q = op.arg(5); q > 0; q--) {  // original and loaded copy go on alike
                u64 seed = (u64)(op.arg(4) * 100 + q); if (l->step(seed) != Out::ok || x.meta->step(seed) != Out::ok) fail("unexpected-exception", std::string(nm) + ": an operation after loading threw " + last_out().what);
                Ans b = all_answers(*l, 40), c = all_answers(*x.meta, 40); if (!(b == c)) fail("wrong-answer", std::string(nm) + ": after loading, the structure goes on differently than the saved one: " + diff(b, c));
            }
        }
    });
    for (auto& s : slot) { if (s) s->drop(); s.reset(); }
    for (auto& s : loaded) { if (s) s->drop(); s.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    if (r.chance(1, 3000)) { p.cfg["huge"] = 1; p.add(-1, "huge", {(i64)r.below(1u << 30), r.range(0, 3), 1ll << (r.chance(1, 4) ? 31 : 32), r.range(0, 3)}); p.random_sched(r, false); return; }
    p.cfg["outmode"] = r.range(0, 2); p.cfg["inmode"] = r.range(0, 3); p.cfg["seed2"] = (i64)r.below(1u << 30); p.cfg["exceptions"] = r.chance(1, 3) ? r.range(1, 3) : 0; p.cfg["tail"] = r.chance(1, 3) ? r.range(1, 40) : 0;
    u64 n = 1 + r.below(r.chance(1, 3) ? 6 : 3); bool same = r.chance(1, 3); i64 kind = r.range(0, A_SAVED - 1); u64 big = r.one_of<u64>({8, 70, 300, tier ? 3000u : 1200u});
    auto size = [&](i64 k) { u64 z = r.size(big); if (k == A_SUFFIX) z = std::min<u64>(z, 200); return (i64)z; };
    std::vector<i64> slots;
    if (r.chance(1, 60)) { // one large structure
        p.cfg["large"] = 1; i64 k = large_kind(r); p.add(-1, "make", {0, k, (i64)r.below(1u << 30), large_size(r, k)}); p.add(-1, "save", {0, (i64)r.below(1000)});
        p.add(-1, "load", {0, 0, r.range(0, 3), (i64)r.below(1u << 30), r.range(0, 3000), r.range(0, 1)}); p.random_sched(r, false); return;
    }
    for (u64 i = 0; i < n; i++) {
        i64 s = (i64)i % NSLOT, k = same ? kind : r.range(0, A_SAVED - 1); p.add(-1, "make", {s, k, (i64)r.below(1u << 30), size(k)});
        for (u64 q = r.chance(1, 2) ? r.below(5) : 0; q > 0; q--) p.add(-1, "step", {s, (i64)r.below(1u << 30)});
        p.add(-1, "save", {s, (i64)r.below(1000)}); slots.push_back(k);
        if (r.chance(1, 4)) { p.add(-1, "step", {s, (i64)r.below(1u << 30)}); p.add(-1, "save", {s, (i64)r.below(1000)}); slots.push_back(k); }
    }
    for (size_t i = 0; i < slots.size(); i++) p.add(-1, "load", {(i64)(r.chance(1, 3) ? 0 : r.below(NSLOT)), 0, r.range(0, 3), (i64)r.below(1u << 30), size(slots[i]), r.range(0, 2)});
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C01", gen, run};
