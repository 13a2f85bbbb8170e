// C03: a failed save is reported, what was written is the beginning of the image, and the object is unharmed.
#include "actors.hpp"
using namespace sim;

namespace {
enum { NSLOT = 4 };
std::unique_ptr<Actor> slot[NSLOT];
void run(Run& r) {
    Mute mute; const Plan& p = r.plan; large_budget(p); for (auto& s : slot) s.reset();
    r.drive([&](const Op& op) {
        auto& s = slot[(u64)op.arg(0) % NSLOT];
        if (op.name == "make") {
            if (s) s->drop(); s = actor((int)((u64)op.arg(1) % A_SAVED)); if (s->make((u64)op.arg(2), (u64)op.arg(3)) != Out::ok) fail("unexpected-exception", std::string(s->name) + ": construction threw " + last_out().what);
        } else if (op.name == "step") {
            if (s && s->has() && s->step((u64)op.arg(1)) != Out::ok) fail("unexpected-exception", std::string(s->name) + ": an operation threw " + last_out().what);
        } else if (op.name == "save") {        // one or several structures into one device that may fail
            std::vector<Actor*> w; std::vector<std::string> img; std::vector<Ans> ans; std::string full; Rng q((u64)op.arg(2));
            for (i64 i = 0; i <= op.arg(1) % 3; i++) { auto& x = slot[((u64)op.arg(0) + (u64)i) % NSLOT]; if (x && x->has()) w.push_back(x.get()); }
            for (auto* x : w) { ans.push_back(all_answers(*x)); img.push_back(image_of(*x, (int)q.below(3), q.next())); full += img.back(); }
            if (w.empty()) return;
            const Fault* c = r.fault(op.id, "full"); const Fault* al = r.fault(op.id, "save_alloc"); bool exc = p.get("exceptions") & 1, thr = c && (c->m & 1); size_t cap = ~0ull >> 1;
            if (c) { u64 at = (u64)c->n; u64 i = (at >> 32) % w.size(), b = 0; for (u64 k = 0; k < i; k++) b += img[k].size(); u64 len = img[i].size(); at &= 0xffffffff; switch (c->m / 2 % 4) { case 0: cap = b + at % (len + 1); break; case 1: cap = b + std::min(len, at % 24); break; case 2: cap = b + len - std::min(len, at % 24); break; default: cap = at % (full.size() + 1); } }
            SimOut so(cap, thr, (int)((u64)op.arg(3) % 3), q.next()); std::ostream os(&so); so.passing = c && (c->m & 8); if (exc) os.exceptions(std::ios::failbit | std::ios::badbit);
            bool seen = false, fired_any = false; Out o = Out::ok;
            for (size_t i = 0; i < w.size(); i++) {
                bool fire = al && (size_t)((u64)al->m >> 1) % w.size() == i; if (fire) arm_alloc(al->n, al->m & 1);
                o = w[i]->save(os); bool fired = fire && alloc_fired(); disarm_alloc(); fired_any |= fired;
                if (o == Out::ok && q.chance(1, 3) && !exc) os.flush();
                if (o != Out::ok) { seen = true; break; }
                if (!os.good()) seen = true;
                if (fired && os.good() ) { probe("allocation_failure_absorbed"); }
            }
            if (!seen) { Out f = sut([&] { os.flush(); }); if (f != Out::ok || !os.good()) seen = true; }
            so.finish();
            const std::string& g = so.got; const char* nm = w[0]->name;
            if (g.size() > full.size() || full.compare(0, g.size(), g) != 0) { size_t k = 0; while (k < g.size() && k < full.size() && g[k] == full[k]) k++; fail("wrong-prefix", std::string(nm) + ": the " + S(g.size()) + " bytes the device took are not the beginning of the " + S(full.size()) + " bytes a fault-free save writes (differ at " + S(k) + ")"); }
            if (!seen && g.size() != full.size()) fail("silent-failure", std::string(nm) + (w.size() > 1 ? " and others" : "") + ": only " + S(g.size()) + " of " + S(full.size()) + " bytes were taken and nothing was reported");
            if (seen && cap >= full.size() && !fired_any) fail("unexpected-exception", std::string(nm) + ": a save reported a failure without a fault");
            if (seen) { probe(o != Out::ok ? "save_threw" : "stream_failed"); if (cap < full.size()) { count_fault(thr ? "write_error" : "device_full"); if (c && c->m & 8) count_fault("passing_write_failure"); probe(g.size() == 0 ? "nothing_written" : "torn_image"); } if (fired_any) probe("save_without_memory"); }
            for (size_t i = 0; i < w.size(); i++) {
                Ans a = all_answers(*w[i]); if (!(a == ans[i])) fail("wrong-answer", std::string(w[i]->name) + (seen ? ": a failed save changed the object: " : ": a save changed the object: ") + diff(a, ans[i]));
                if (image_of(*w[i], (int)q.below(3), q.next()) != img[i]) fail("wrong-image", std::string(w[i]->name) + ": a later save writes other bytes");
            }
        }
    });
    for (auto& s : slot) { if (s) s->drop(); s.reset(); }
    if (u64 lost = lost_blocks(0, 0)) fail("leak", S(lost) + " blocks are still allocated after everything was destroyed");
}
void gen(Rng& r, Plan& p, int tier) {
    p.cfg["exceptions"] = r.chance(1, 3);
    u64 n = 1 + r.below(3); bool same = r.chance(1, 3); i64 kind = r.range(0, A_SAVED - 1); u64 big = r.one_of<u64>({4, 40, 200, tier ? 2500u : 900u});
    bool large = r.chance(1, 60); if (large) { p.cfg["large"] = 1; n = 1; }
    auto mk = [&](i64 s) { if (large) { i64 k = large_kind(r); p.add(-1, "make", {s, k, (i64)r.below(1u << 30), large_size(r, k)}); return; } i64 k = same ? kind : r.range(0, A_SAVED - 1); u64 z = r.size(big); if (k == A_SUFFIX) z = std::min<u64>(z, 120); p.add(-1, "make", {s, k, (i64)r.below(1u << 30), (i64)z}); };
    for (u64 i = 0; i < n; i++) mk((i64)i);
    u64 m = large ? 2 : 2 + r.below(tier ? 14 : 9);
    for (u64 i = 0; i < m; i++) {
        u64 x = r.below(12);
        if (x < 2) p.add(-1, "step", {(i64)r.below(n), (i64)r.below(1u << 30)});
        else if (x == 2 && !large) mk((i64)r.below(n));
        else {
            auto& o = p.add(-1, "save", {(i64)r.below(n), r.chance(1, 2) ? 0 : r.range(0, 2), (i64)r.below(1u << 30), r.range(0, 2)}); int id = o.id;
            if (r.chance(5, 6)) p.fault(id, "full", (i64)(r.below(1u << 30) | (r.below(8) << 32)), r.range(0, 15));
            if (r.chance(1, 4)) p.fault(id, "save_alloc", r.range(1, 4), r.range(0, 7));
        }
    }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C03", gen, run};
