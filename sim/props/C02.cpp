// C02: a cut-off, failing or memory-starved load is reported, bounded, and leaves a target that can be destroyed or reloaded.
#include "actors.hpp"
using namespace sim;

namespace {
enum { NSLOT = 8 };
std::unique_ptr<Actor> loaded[NSLOT];
struct Rec { std::unique_ptr<Actor> o; std::string image; Ans ans; size_t begin, end; };
void good_load(Actor& l, const Rec& x, int how, const char* when) {
    SimIn si(x.image, ~0ull >> 1, false, how % 4, (u64)how); std::istream is(&si); Out o = l.load(is, *x.o, how);
    if (o != Out::ok || !is.good()) fail("unexpected-exception", std::string(x.o->name) + ": " + when + ", loading a complete image failed");
    Ans a = all_answers(l); if (!(a == x.ans)) fail("wrong-answer", std::string(x.o->name) + ": " + when + ", the loaded structure answers differently: " + diff(a, x.ans));
    if (image_of(l, 0, 1) != x.image) fail("wrong-image", std::string(x.o->name) + ": " + when + ", the structure saves to other bytes");
}
void run(Run& r) {
    Mute mute; const Plan& p = r.plan; large_budget(p); for (auto& s : loaded) s.reset();
    { std::vector<Rec> log; std::string data; bool done = false;
    r.drive([&](const Op& op) {
        if (op.name == "record") {
            Rec x; x.o = actor((int)((u64)op.arg(0) % A_SAVED)); if (x.o->make((u64)op.arg(1), (u64)op.arg(2)) != Out::ok) fail("unexpected-exception", std::string(x.o->name) + ": construction threw " + last_out().what);
            for (i64 q = 0; q < op.arg(3); q++) if (x.o->step((u64)(op.arg(1) + q)) != Out::ok) fail("unexpected-exception", std::string(x.o->name) + ": an operation threw");
            x.ans = all_answers(*x.o); x.image = image_of(*x.o, 0, 0); x.begin = data.size(); data += x.image; x.end = data.size(); log.push_back(std::move(x));
        } else if (op.name == "recover") {     // read the whole log back through a stream that may fail
            if (log.empty()) return; Rng q((u64)op.arg(1));
            // the cut, and what happens there
            const Fault* cut = r.fault(op.id, "cut"); const Fault* al = r.fault(op.id, "load_alloc"); size_t L = data.size(); bool thr = false, exc = p.get("exceptions") & 1;
            if (cut) {
                u64 c = (u64)cut->n; const Rec& x = log[(c >> 32) % log.size()]; u64 len = x.end - x.begin, at = c & 0xffffffff;
                switch (cut->m / 4 % 5) { case 0: L = x.begin + at % (len + 1); break; case 1: L = x.begin + std::min(len, at % 40); break; case 2: L = x.end - std::min(len, at % 40); break; case 3: L = x.begin + (at % (len + 1)) / 8 * 8; break; default: L = x.begin; }
                thr = cut->m & 1;
            }
            SimIn si(data, L, thr, (int)((u64)op.arg(2) % 4), (u64)op.arg(1)); std::istream is(&si); si.passing = cut && (cut->m & 2) && (cut->n & 1); if (exc) is.exceptions(std::ios::failbit | std::ios::badbit);
            for (size_t i = 0; i < log.size(); i++) {
                Rec& x = log[i]; const char* nm = x.o->name; auto& l = loaded[i % NSLOT]; bool used = q.chance(1, 2); int how = (int)q.below(4); if (!used) how &= 2; else how |= 1;
                if (l) l->drop(); l = actor(x.o->kind);
                if (used && l->make(q.next() >> 34, q.size(x.o->kind == A_SUFFIX ? 50 : 300)) != Out::ok) fail("unexpected-exception", std::string(nm) + ": construction threw");
                u64 want = q.next(); max_request_reset(); u64 before = heap().live_bytes; bool fire = al && (size_t)((u64)al->m >> 1) % log.size() == i;
                if (fire) arm_alloc(al->n, al->m & 1);
                Out o = l->load(is, *x.o, how); bool fired = fire && alloc_fired(); disarm_alloc();
                u64 mx = max_request_reset(), grown = heap().live_bytes > before ? heap().live_bytes - before : 0, room = 2 * x.image.size() + 65536;
                if (mx > room) fail("excessive-memory", std::string(nm) + ": loading an image of " + S(x.image.size()) + " bytes" + (L < x.end ? " cut after " + S(L > x.begin ? L - x.begin : 0) : "") + " asked for a block of " + S(mx) + " bytes");
                if (grown > 2 * room) fail("excessive-memory", std::string(nm) + ": loading an image of " + S(x.image.size()) + " bytes keeps " + S(grown) + " bytes");
                bool seen = o != Out::ok || (L >= x.end && !fired ? is.fail() : !is.good());
                if (L >= x.end && !fired) {
                    if (seen) fail("unexpected-exception", std::string(nm) + ": the complete image " + S(i) + " of the log, before the cut, is not recovered (" + (o != Out::ok ? "threw " + last_out().what : "stream failed") + ")");
                    if (si.consumed() != x.end) fail("wrong-extent", std::string(nm) + ": loading consumed " + S(si.consumed() - x.begin) + " bytes of an image of " + S(x.image.size()));
                    Ans a = all_answers(*l); if (!(a == x.ans)) fail("wrong-answer", std::string(nm) + ": recovered structure " + S(i) + " answers differently: " + diff(a, x.ans));
                    continue;
                }
                if (fired && !seen && L >= x.end) { // the failure was absorbed: then the result has to be right
                    probe("allocation_failure_absorbed"); Ans a = all_answers(*l); if (!(a == x.ans)) fail("silent-failure", std::string(nm) + ": memory ran out while loading, nothing was reported, and the structure answers differently: " + diff(a, x.ans)); continue;
                }
                if (!seen) fail("silent-failure", std::string(nm) + ": an image of " + S(x.image.size()) + " bytes cut after " + S(L - x.begin) + " loaded without any report");
                if (L < x.end) { count_fault(thr ? "read_error" : "end_of_data"); if (si.passing) count_fault("passing_read_failure"); probe(L == x.begin ? "cut_between_structures" : "cut_inside_a_structure"); } if (fired) probe("load_without_memory");
                if (o != Out::ok) probe("load_threw"); else probe("stream_failed");
                // afterwards: destroy, load again, or be assigned
                switch (want % 4) {
                case 0: l->drop(); break;
                case 1: case 2: good_load(*l, x, l->has() ? 1 | (int)(want >> 8 & 2) : (int)(want >> 8 & 2), "after a failed load into the same object"); probe("reloaded_after_failure"); break;
                default: if (l->has()) { if (l->take(*x.o, 1) != Out::ok) fail("unexpected-exception", std::string(nm) + ": assigning to the target of a failed load threw"); Ans a = all_answers(*l); if (!(a == x.ans)) fail("wrong-answer", std::string(nm) + ": assigned after a failed load, answers differently: " + diff(a, x.ans)); } break;
                }
                break;      // nothing can be read after the failure
            }
            done = true;
            for (auto& l : loaded) { if (l) l->drop(); l.reset(); }
        }
    });
    if (done) probe("log_recovered");
    for (auto& x : log) x.o->drop();
    }
    if (u64 lost = lost_blocks(0, 0)) fail("leak", S(lost) + " blocks are still allocated after everything was destroyed");
}
void gen(Rng& r, Plan& p, int tier) {
    p.cfg["exceptions"] = r.chance(1, 3);
    u64 n = 1 + r.below(r.chance(1, 4) ? 5 : 2); bool same = r.chance(1, 3); i64 kind = r.range(0, A_SAVED - 1); u64 big = r.one_of<u64>({4, 40, 200, tier ? 2500u : 900u});
    bool large = r.chance(1, 60); if (large) { p.cfg["large"] = 1; n = 0; i64 k = large_kind(r); p.add(-1, "record", {k, (i64)r.below(1u << 30), large_size(r, k), 0}); }
    for (u64 i = 0; i < n; i++) { i64 k = same ? kind : r.range(0, A_SAVED - 1); u64 z = r.size(big); if (k == A_SUFFIX) z = std::min<u64>(z, 120); p.add(-1, "record", {k, (i64)r.below(1u << 30), (i64)z, r.chance(1, 3) ? r.range(1, 3) : 0}); }
    u64 m = large ? 2 : 2 + r.below(tier ? 12 : 8);
    for (u64 i = 0; i < m; i++) {
        auto& o = p.add(-1, "recover", {0, (i64)r.below(1u << 30), r.range(0, 3)}); int id = o.id;
        if (r.chance(5, 6)) p.fault(id, "cut", (i64)(r.below(1u << 30) | (r.below(64) << 32)), r.range(0, 19));
        if (r.chance(1, 4)) p.fault(id, "load_alloc", r.chance(2, 3) ? r.range(1, 5) : r.range(1, 40), r.range(0, 15));
    }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C02", gen, run};
