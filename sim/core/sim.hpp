// Deterministic simulator for a header-only C++ library: caller threads, allocator, streams, callbacks
// and stale memory are the sources of nondeterminism and fault, all decided here from one seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <ios>
#include <exception>
#include <stdexcept>
#include <streambuf>
#include <istream>
#include <ostream>
#include <functional>
#include <random>
#include <type_traits>
#include <utility>

namespace sim {
using u64 = uint64_t;
using i64 = int64_t;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s0, s1;
    explicit Rng(u64 seed = 1);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    template <class T> T one_of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // sizes biased to small values and to neighbours of word / block boundaries
    u64 size(u64 max);
    int tasks() { return chance(1, 12) ? 5 + (int)below(32) : 2 + (int)below(3); } // how many run at once: now and then dozens
    u64 width_value(unsigned maxbits); // value of a random bit width <= maxbits, biased to edges
};

// ---------------------------------------------------------------- plan
struct Op {
    int id = 0;
    int task = -1;            // -1: main (sequential); >= 0: part of a parallel group
    std::string name;
    std::vector<i64> a;
    i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Fault { int op; std::string kind; i64 n; i64 m; };
struct Switch { int op; i64 k; int to; };  // before the k-th step of op `op` (k = -1: after it) run task `to`
struct Plan {
    std::string prop;
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    bool explicit_sw = false;
    std::vector<Switch> sw;
    u64 sched_seed = 0;
    int sched_mode = 0;       // 0 sequential, 1 random gaps, 2 pct, 3 conflict guided
    i64 sched_gap = 50;
    i64 get(const std::string& k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    Op& add(int task, const std::string& name, std::vector<i64> a = {});
    void fault(int op, const std::string& kind, i64 n, i64 m = 0) { faults.push_back({op, kind, n, m}); }
    void random_sched(Rng& r, bool parallel);
    std::string text() const;
    bool parse(const std::string& t);
};

// ---------------------------------------------------------------- run context
enum class Out { ok, bad_alloc, io_failure, user_throw, length, range, other };
const char* out_name(Out);
struct UserThrow {};   // thrown by simulated callbacks (comparators, visitors)

// violations: record and end the run (never returns)
[[noreturn]] void fail(const std::string& cls, const std::string& msg);
[[noreturn]] void internal_error(const std::string& msg);
void log(const std::string& line);     // part of the run's history (hashed); must not contain addresses
void log(const char* what, u64 v);
void probe(const char* name, u64 n = 1);      // "this rare condition was hit"
void count_fault(const char* kind, u64 n = 1); // a fault actually fired
bool verbose();

// seam scope
extern "C" {
void simc_enter(); void simc_leave();
}
struct Scope { Scope() { simc_enter(); } ~Scope() { simc_leave(); } Scope(const Scope&) = delete; };
// leave the scope temporarily (harness code called back by the code under test)
struct Unscope { int saved; Unscope(); ~Unscope(); Unscope(const Unscope&) = delete; };

struct LastOut { Out out; std::string what; };
LastOut& last_out();

template <class F> Out sut(F&& f) {
    try { Scope s; f(); }
    catch (const UserThrow&) { return last_out() = {Out::user_throw, "callback"}, Out::user_throw; }
    catch (const std::bad_alloc&) { return last_out() = {Out::bad_alloc, "bad_alloc"}, Out::bad_alloc; }
    catch (const std::ios_base::failure& e) { return last_out() = {Out::io_failure, "ios failure"}, Out::io_failure; }
    catch (const std::length_error& e) { return last_out() = {Out::length, e.what()}, Out::length; }
    catch (const std::out_of_range& e) { return last_out() = {Out::range, e.what()}, Out::range; }
    catch (const std::exception& e) { return last_out() = {Out::other, e.what()}, Out::other; }
    catch (...) { return last_out() = {Out::other, "non-standard exception"}, Out::other; }
    return last_out() = {Out::ok, ""}, Out::ok;
}
// a call that has to succeed: anything thrown is a violation
template <class F> void must(const char* what, F&& f) {
    Out o = sut(std::forward<F>(f));
    if (o != Out::ok) fail("unexpected-exception", std::string(what) + " threw " + out_name(o) + " (" + last_out().what + ") without a fault");
}
template <class F> auto value(const char* what, F&& f) -> std::decay_t<decltype(f())> {
    std::decay_t<decltype(f())> r{};
    must(what, [&] { r = f(); });
    return r;
}
inline void check(bool c, const char* cls, const std::string& msg) { if (!c) fail(cls, msg); }
std::string S(u64 v);
std::string SI(i64 v);
template <class T> void eq(const char* what, const T& got, const T& want, const std::string& ctx = "") {
    if (!(got == want)) fail("wrong-answer", std::string(what) + (ctx.empty() ? "" : " [" + ctx + "]") + ": got " + S((u64)got) + ", expected " + S((u64)want));
}

// the same, but a message is put together only when it is needed: the harness is instrumented like the code under test, and texts are dear
#define CHECK(c, ...) do { if (!(c)) ::sim::fail(__VA_ARGS__); } while (0)
#define EQ(what, got, ...) do { const ::sim::u64 g_ = (::sim::u64)(got); EQ_(what, g_, __VA_ARGS__, "") } while (0)
#define EQ_(what, g, want, ctx, ...) const ::sim::u64 w_ = (::sim::u64)(want); if (g != w_) ::sim::eq<::sim::u64>(what, g, w_, ctx);

// allocator
struct HeapStat { u64 live_blocks, live_bytes, allocs, max_request, op_allocs; bool fired; };
HeapStat heap();
u64 lost_blocks(u64 before, u64 mark); // how many more than `before` blocks live, apart from those allocated after `mark` (heap().allocs) that statics still lead to
// arm: fail the k-th allocation (1-based) from now within scope; sticky: and all later ones
void arm_alloc(i64 k, bool sticky);
void disarm_alloc();
bool alloc_fired();              // did the armed failure fire since arm
u64 allocs_since_arm();
void set_garbage(int mode);      // contents of fresh blocks: 0 zero,1 ff,2 a5,3 random,4 recycled
void set_request_limit(u64 bytes); // requests above it fail with bad_alloc (default: whatever fits)
u64 max_request_reset();         // largest single request since last reset
void fill_garbage(void* p, size_t n, int mode, Rng& r);
void renew_budget(); // the operation may take its whole budget again from here
void step_budget(u64 steps);     // per operation
void huge_run();                 // a run beyond 2^32 bits
void large_run();                // a run with far more elements: budgets to match, given up when it outgrows the simulator
u64 op_steps();
bool conflict_seen();

// ---------------------------------------------------------------- streams
// Input: reads from `data`; delivers it in fragments; ends at `limit`; may throw at the limit.
struct SimIn : std::streambuf {
    const std::string& data; size_t pos = 0, limit; bool throw_at_limit; int mode; Rng rng; char buf[64]; size_t delivered = 0;
    bool hit_limit = false, passing = false;      // passing: the fault goes away once it was seen
    SimIn(const std::string& d, size_t limit, bool thr, int mode, u64 seed)
        : data(d), limit(limit < d.size() ? limit : d.size()), throw_at_limit(thr), mode(mode), rng(seed) {}
    size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
  protected:
    size_t chunk(size_t want);
    int_type underflow() override;
    std::streamsize xsgetn(char* s, std::streamsize n) override;
};
// Output: accepts bytes until `capacity`; then refuses (or throws); fragments writes.
struct SimOut : std::streambuf {
    std::string got; size_t capacity; bool throw_at_cap; int mode; Rng rng; bool hit_cap = false, passing = false; char buf[32];
    SimOut(size_t cap, bool thr, int mode, u64 seed);
    void finish();
  protected:
    size_t accept(const char* s, size_t n);
    bool drain();
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override;
};
inline std::string hex(const std::string& s, size_t max = 24) {
    static const char* d = "0123456789abcdef"; std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) { r += d[(unsigned char)s[i] >> 4]; r += d[s[i] & 15]; }
    return r;
}
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);

// ---------------------------------------------------------------- driver of one run
struct Run {
    const Plan& plan;
    explicit Run(const Plan& p) : plan(p) {}
    // executes all ops in order; groups of consecutive ops with task >= 0 run as concurrent tasks
    void drive(const std::function<void(const Op&)>& f);
    const Fault* fault(int op, const char* kind) const;
    bool arm(const Op& op);     // arms an "alloc" fault of this op if there is one
};

struct Property {
    const char* id;
    void (*gen)(Rng&, Plan&, int tier);
    void (*run)(Run&);
};
extern const Property kProperty;  // defined by the scenario

} // namespace sim
