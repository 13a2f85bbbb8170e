// C15: separate objects never influence each other: threads working on their own objects (some of them copies of,
// moved from, built from or loaded from the bytes of each other's) get the answers they would get alone.
#include "actors.hpp"
using namespace sim;

namespace {
enum { NSLOT = 160 };
struct Step { int what; u64 a, b; Ans got; };      // 0 make, 1 step, 2 ask
struct Slot { std::unique_ptr<Actor> o; std::vector<Step> h; };
Slot slot[NSLOT];
void clear(Slot& s) { if (s.o) s.o->drop(); s.o.reset(); s.h.clear(); }
void inherit(Slot& d, const Slot& s) { d.h.clear(); for (auto& x : s.h) if (x.what != 2) d.h.push_back({x.what, x.a, x.b, {}}); }
// true: the call completed. false: it ran out of memory by an injected failure. Anything else is a violation.
bool done(Out out, bool fired, const Actor* a, const char* what) {
    if (out == Out::ok) return true;
    CHECK(fired && out == Out::bad_alloc, "unexpected-exception", std::string(a->name) + ": " + what + " threw " + out_name(out) + " (" + last_out().what + ")");
    return false;
}
void run(Run& r) {
    Mute mute;
    r.drive([&](const Op& op) {
        Slot& s = slot[(u64)op.arg(0) % NSLOT];
        if (op.name == "new") {
            clear(s); s.o = actor((int)((u64)op.arg(1) % A_N)); r.arm(op); Out out = s.o->make((u64)op.arg(2), (u64)op.arg(3)); bool f = alloc_fired(); disarm_alloc();
            if (!done(out, f, s.o.get(), "construction")) { clear(s); return; }
            s.h.push_back({0, (u64)op.arg(2), (u64)op.arg(3), {}}); return;
        }
        if (!s.o || !s.o->has()) return;
        if (op.name == "hold") {
            s.o->held = nullptr; Out out = s.o->hold((u64)op.arg(1)); CHECK(out == Out::ok, "unexpected-exception", std::string(s.o->name) + ": taking a reference threw"); s.h.push_back({3, (u64)op.arg(1), 0, {}});
        } else if (op.name == "write") {
            if (!s.o->held) return; Out out = s.o->write_held((u64)op.arg(1)); CHECK(out == Out::ok, "unexpected-exception", std::string(s.o->name) + ": writing through a reference threw"); s.h.push_back({4, (u64)op.arg(1), 0, {}}); probe("written_through_a_held_reference");
        } else if (op.name == "step") {
            s.o->held = nullptr; r.arm(op); Out out = s.o->step((u64)op.arg(1)); bool f = alloc_fired(); disarm_alloc();
            if (!done(out, f, s.o.get(), "operation")) { clear(s); return; }
            s.h.push_back({1, (u64)op.arg(1), 0, {}});
        } else if (op.name == "ask") {
            Step x{2, (u64)op.arg(1), 0, {}}; x.got.v.reserve(1500); if (s.o->kind != A_SUFFIX) r.arm(op); /* its answers pass through string streams, which keep such a failure to themselves */ Out out = s.o->answers(x.got, (u64)op.arg(1)); bool f = alloc_fired(); disarm_alloc();
            if (done(out, f, s.o.get(), "query")) s.h.push_back(std::move(x));
        } else if (op.name == "give" || op.name == "pass") {      // to another object: by copy / move, or through saved bytes
            Slot& d = slot[(u64)op.arg(1) % NSLOT]; if (&d == &s) return;
            int how = (int)op.arg(2) & 3; if (!d.o || d.o->kind != s.o->kind) { clear(d); d.o = actor(s.o->kind); }
            if (op.name == "give") {
                bool move = how >= 2; r.arm(op); Out out = d.o->take(*s.o, how); bool f = alloc_fired(); disarm_alloc();
                bool ok = done(out, f, s.o.get(), "copy or move"); if (ok) inherit(d, s); else clear(d);
                if (move) clear(s);
                probe(how == 0 ? "copied" : how == 1 ? "copy_assigned" : how == 2 ? "moved" : "move_assigned");
            } else {
                if (!s.o->saves()) return;
                SimOut so(~0ull >> 1, false, (int)op.arg(3) % 3, (u64)op.arg(3)); bool bad = false; r.arm(op);
                Out out; { std::ostream os(&so); out = s.o->save(os); bool f = alloc_fired(); disarm_alloc(); if (out != Out::ok || !os.good()) { CHECK(f, "unexpected-exception", "save failed without a fault"); return; } os.flush(); so.finish(); }
                SimIn si(so.got, ~0ull >> 1, false, (int)op.arg(3) % 4, (u64)op.arg(3)); std::istream is(&si);
                d.o->held = nullptr; out = d.o->load(is, *s.o, how); bad = !is.good();
                CHECK(out == Out::ok && !bad, "unexpected-exception", std::string(s.o->name) + ": loading what was just saved failed");
                inherit(d, s); probe("loaded_from_the_same_bytes");
            }
        } else if (op.name == "swap") {                           // with another of its kind, or assigned to itself
            Slot& d = slot[(u64)op.arg(1) % NSLOT]; if (&d != &s && (!d.o || !d.o->has() || d.o->kind != s.o->kind)) return;
            Out out = s.o->swap(*d.o); CHECK(out == Out::ok, "unexpected-exception", std::string(s.o->name) + ": a swap or an assignment to itself threw"); if (&d != &s) std::swap(s.h, d.h); probe(&d == &s ? "assigned_to_itself" : "swapped");
        } else if (op.name == "drop") clear(s);
    });
    if (conflict_seen()) probe("conflicting_accesses");
    // every object's own history, alone
    std::vector<std::pair<std::vector<Step>, int>> all;
    for (auto& s : slot) { if (s.o && !s.h.empty()) all.push_back({std::move(s.h), s.o->kind}); clear(s); }
    u64 asked = 0;
    for (auto& hk : all) {
        auto o = actor(hk.second);
        for (auto& x : hk.first) {
            if (x.what == 0) { if (o->make(x.a, x.b) != Out::ok) fail("unexpected-exception", std::string(o->name) + ": construction alone threw"); }
            else if (x.what == 3) { o->held = nullptr; if (o->hold(x.a) != Out::ok) fail("unexpected-exception", std::string(o->name) + ": a reference taken alone threw"); }
            else if (x.what == 4) { if (o->write_held(x.a) != Out::ok) fail("unexpected-exception", std::string(o->name) + ": a write through a reference alone threw"); }
            else if (x.what == 1) { o->held = nullptr; if (o->step(x.a) != Out::ok) fail("unexpected-exception", std::string(o->name) + ": operation alone threw"); }
            else { Ans a; a.v.reserve(1500); if (o->answers(a, x.a) != Out::ok) fail("unexpected-exception", std::string(o->name) + ": query alone threw"); asked++; if (!(a == x.got)) fail("wrong-answer", std::string(o->name) + ": an object used next to others answers differently than alone: " + diff(x.got, a)); }
        }
        o->drop();
    }
    if (asked) probe("histories_compared", asked);
}
void gen(Rng& r, Plan& p, int tier) {
    int T = r.tasks(), per = T > 4 ? 1 : 1 + (int)r.below(3); bool same = r.chance(2, 3); i64 kind = r.range(0, A_N - 1); u64 big = r.one_of<u64>({6, 20, 60, tier ? 300u : 120u});
    auto own = [&](int t) { return (i64)(t * 4 + (int)r.below((u64)per)); };
    auto any = [&] { return own((int)r.below((u64)T)); };
    auto mk = [&](int t, i64 s) { p.add(t, "new", {s, same ? kind : r.range(0, A_N - 1), (i64)r.below(1u << 30), (i64)r.size(big)}); };
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) if (t == 0 || !same || r.chance(1, 2)) mk(-1, t * 4 + i);
    for (u64 k = r.below(3); k > 0; k--) p.add(-1, "step", {any(), (i64)r.below(1u << 30)});
    for (u64 k = r.below(4) + (same ? 2 : 0); k > 0; k--) { i64 s = any(), d = any(); p.add(-1, r.chance(2, 3) ? "give" : "pass", {s, d, r.chance(3, 4) ? r.range(0, 1) : r.range(2, 3), (i64)r.below(1u << 20)}); }
    if (r.chance(1, 4)) { // a reference into one object is kept while it is copied, and written through afterwards
        i64 a = own(0), b = own((int)r.below((u64)T)); if (a == b) b = a ^ 1; static const i64 ks[] = {0, 0, 1, 1, 2}; bool fresh = r.chance(1, 2);
        if (fresh) p.add(-1, "new", {a, r.chance(2, 3) ? ks[r.below(5)] : r.range(0, A_N - 1), (i64)r.below(1u << 30), (i64)r.size(big)});
        p.add(-1, "hold", {a, (i64)r.below(1u << 30)}); p.add(-1, "give", {a, b, r.range(0, 1)}); if (r.chance(1, 2)) p.add(-1, "ask", {b, 20}); if (r.chance(1, 4)) p.add(-1, "step", {b, (i64)r.below(1u << 30)});
        p.add(r.chance(1, 2) ? 0 : -1, "write", {a, (i64)r.below(1u << 30)}); p.add(-1, "ask", {b, 20}); p.add(-1, "ask", {a, 20});
    }
    if (r.chance(1, 3)) { // one of two relatives takes other contents, or goes away; the other is asked. Every pair of ways
        int t = (int)r.below((u64)T); i64 a = t * 4, b = (r.chance(1, 2) ? t : (int)r.below((u64)T)) * 4 + 3, c = t * 4 + 2, k = r.chance(1, 2) ? kind : r.range(0, A_N - 1); u64 sz = r.chance(1, 2) ? big : 60;
        auto fresh = [&](i64 s) { p.add(-1, "new", {s, k, (i64)r.below(1u << 30), (i64)r.size(sz)}); };
        fresh(a); fresh(c); if (r.chance(1, 3)) fresh(b);
        if (r.chance(1, 3)) p.add(-1, "step", {a, (i64)r.below(1u << 30)});
        p.add(-1, r.chance(5, 6) ? "give" : "pass", {a, b, r.range(0, 1), (i64)r.below(1u << 20)});
        for (u64 i = 1 + r.below(2); i > 0; i--) { i64 x = r.chance(1, 2) ? a : b;
            switch (r.below(6)) {
            case 0: case 1: p.add(-1, "pass", {c, x, r.range(0, 3), (i64)r.below(1u << 20)}); break;
            case 2: p.add(-1, "give", {c, x, r.range(0, 3)}); break;
            case 3: p.add(-1, "step", {x, (i64)r.below(1u << 30)}); break;
            case 4: p.add(-1, "drop", {x}); break;
            default: fresh(x);
            } }
        p.add(-1, "ask", {a, 20}); p.add(-1, "ask", {b, 20});
    }
    u64 len = 1 + r.below(T > 4 ? 2 : tier ? 8 : 5); bool par = r.chance(9, 10);
    for (int t = 0; t < T; t++) for (u64 q = 0; q < len; q++) {
        int task = par ? t : -1; i64 s = own(t); u64 x = r.below(20);
        if (x < 6) { if (r.chance(1, 6)) { p.add(task, "hold", {s, (i64)r.below(1u << 30)}); if (r.chance(2, 3)) p.add(task, "give", {s, own(t), r.range(0, 1)}); p.add(task, "write", {s, (i64)r.below(1u << 30)}); } else p.add(task, "step", {s, (i64)r.below(1u << 30)}); }
        else if (x < 14) p.add(task, "ask", {s, (i64)(2 + r.below(20))});
        else if (x < 16) mk(task, s);
        else if (x < 18) p.add(task, "give", {s, own(t), r.range(0, 3)});
        else if (r.chance(1, 3)) p.add(task, "swap", {s, r.chance(1, 3) ? s : own(t)});
        else if (x < 19) p.add(task, "pass", {s, own(t), r.range(0, 3), (i64)r.below(1u << 20)});
        else p.add(task, "drop", {s});
    }
    for (u64 k = r.below(3); k > 0; k--) { i64 s = any(), d = any(); if (r.chance(1, 4)) p.add(-1, "swap", {s, r.chance(1, 3) ? s : d}); p.add(-1, "give", {s, d, r.range(0, 3)}); p.add(-1, "step", {r.chance(1, 2) ? s : d, (i64)r.below(1u << 30)}); }
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) p.add(-1, "ask", {t * 4 + i, 200});
    if (r.chance(1, 3)) for (u64 k = 1 + r.below(3); k > 0; k--) p.fault(r.pick(p.ops).id, "alloc", r.range(1, 12), r.chance(1, 3));
    p.random_sched(r, par);
}
} // namespace
const Property sim::kProperty = {"C15", gen, run};
