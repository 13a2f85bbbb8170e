// Simulator core. Compiled WITHOUT instrumentation; linked with an instrumented scenario.
#include "sim.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <link.h>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <unordered_map>
#include <set>

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
}

namespace sim {

// ---------------------------------------------------------------- PRNG
static u64 splitmix(u64& x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Rng::Rng(u64 seed) { u64 x = seed; s0 = splitmix(x); s1 = splitmix(x); if (!(s0 | s1)) s1 = 1; }
u64 Rng::next() {
    u64 a = s0, b = s1;
    s0 = b; a ^= a << 23; s1 = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s1 + b;
}
u64 Rng::size(u64 max) {
    switch (below(6)) {
    case 0: return below(std::min<u64>(max, 8) + 1);
    case 1: { u64 m = one_of<u64>({8, 32, 64, 128, 256, 512, 1024, 2048}); u64 k = 1 + below(3);
              i64 v = (i64)(m * k) + range(-2, 2); return std::min<u64>(max, (u64)std::max<i64>(0, v)); }
    case 2: return below(std::min<u64>(max, 70) + 1);
    case 3: return std::min<u64>(max, 64 * below(max / 64 + 1));
    default: return below(max + 1);
    }
}
u64 Rng::width_value(unsigned maxbits) {
    unsigned w = (unsigned)below(maxbits + 1);
    if (w == 0) return 0;
    u64 top = 1ull << (w - 1);
    switch (below(4)) {
    case 0: return top;
    case 1: return top | (top - 1);
    default: return top | (next() & (top - 1));
    }
}
u64 fnv(const void* p, size_t n, u64 h) {
    auto c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
std::string S(u64 v) { return std::to_string(v); }
std::string SI(i64 v) { return std::to_string(v); }
const char* out_name(Out o) {
    static const char* n[] = {"ok", "bad_alloc", "io_failure", "user_throw", "length_error", "out_of_range", "other"};
    return n[(int)o];
}

// ---------------------------------------------------------------- plan
Op& Plan::add(int task, const std::string& name, std::vector<i64> a) {
    Op o; o.id = ops.empty() ? 1 : ops.back().id + 1; o.task = task; o.name = name; o.a = std::move(a);
    ops.push_back(std::move(o)); return ops.back();
}
void Plan::random_sched(Rng& r, bool parallel) {
    sched_seed = r.next() >> 1;
    if (!parallel) { sched_mode = 0; return; }
    sched_mode = r.one_of({1, 1, 1, 2, 3, 3, 0});
    sched_gap = r.one_of<i64>({2, 5, 10, 30, 100, 400, 2000});
}
std::string Plan::text() const {
    std::string t = "prop " + prop + "\nseed " + S(seed) + "\n";
    for (auto& c : cfg) t += "cfg " + c.first + " " + SI(c.second) + "\n";
    t += "sched " + std::string(explicit_sw ? "explicit" : "generated") + " " + SI(sched_mode) + " " + SI(sched_gap) + " " + S(sched_seed) + "\n";
    for (auto& o : ops) {
        t += "op " + SI(o.id) + " " + SI(o.task) + " " + o.name;
        for (auto v : o.a) t += " " + SI(v);
        t += "\n";
    }
    for (auto& f : faults) t += "fault " + SI(f.op) + " " + f.kind + " " + SI(f.n) + " " + SI(f.m) + "\n";
    for (auto& s : sw) t += "sw " + SI(s.op) + " " + SI(s.k) + " " + SI(s.to) + "\n";
    return t;
}
bool Plan::parse(const std::string& t) {
    std::istringstream is(t); std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "prop") l >> prop;
        else if (k == "seed") l >> seed;
        else if (k == "cfg") { std::string n; i64 v; l >> n >> v; cfg[n] = v; }
        else if (k == "sched") { std::string m; l >> m >> sched_mode >> sched_gap >> sched_seed; explicit_sw = m == "explicit"; }
        else if (k == "op") { Op o; l >> o.id >> o.task >> o.name; i64 v; while (l >> v) o.a.push_back(v); ops.push_back(o); }
        else if (k == "fault") { Fault f; l >> f.op >> f.kind >> f.n >> f.m; faults.push_back(f); }
        else if (k == "sw") { Switch s; l >> s.op >> s.k >> s.to; sw.push_back(s); }
        else return false;
    }
    return true;
}

// ---------------------------------------------------------------- shared result of a run
struct Counter { char name[40]; u64 n; };
enum Status { kRunning = 0, kOk = 1, kViolation = 2, kInternal = 3 };
static const size_t kMaxSw = 1 << 17;
struct Shared {
    int status; char cls[48]; char msg[900];
    int cur_op; char cur_name[32];
    u64 hash, sched_hash, steps, switches, preempts, allocs, faults, ops_done, used; // used: the most of its step budget an operation took, in thousandths
    bool nontrivial;
    Counter probes[96]; int nprobes;
    Counter fkinds[40]; int nfk;
    u64 nsw; Switch sw[kMaxSw];
};
static Shared* sh;
static bool g_verbose = false;
bool verbose() { return g_verbose; }

static void bump(Counter* c, int& n, int max, const char* name, u64 k) {
    for (int i = 0; i < n; i++) if (!strcmp(c[i].name, name)) { c[i].n += k; return; }
    if (n < max) { strncpy(c[n].name, name, sizeof c[n].name - 1); c[n].n = k; n++; }
}
void probe(const char* name, u64 n) { bump(sh->probes, sh->nprobes, 96, name, n); }
void count_fault(const char* kind, u64 n) { bump(sh->fkinds, sh->nfk, 40, kind, n); sh->faults += n; sh->nontrivial = true; }
void log(const std::string& line) {
    sh->hash = fnv(line.data(), line.size(), sh->hash);
    if (g_verbose) printf("  | %s\n", line.c_str());
}
void log(const char* what, u64 v) {
    sh->hash = fnv(what, strlen(what), sh->hash); sh->hash = fnv(&v, sizeof v, sh->hash);
    if (g_verbose) printf("  | %s %llu\n", what, (unsigned long long)v);
}
static void set_result(Status st, const char* cls, const char* msg) {
    if (sh->status != kRunning) return;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    snprintf(sh->msg, sizeof sh->msg, "%s", msg);
    sh->hash = fnv(cls, strlen(cls), sh->hash);
    sh->status = st;
}
void fail(const std::string& cls, const std::string& msg) {
    set_result(kViolation, cls.c_str(), msg.c_str());
    if (g_verbose) { printf("VIOLATED %s: %s (op %d %s)\n", cls.c_str(), msg.c_str(), sh->cur_op, sh->cur_name); fflush(stdout); }
    _exit(3);
}
void internal_error(const std::string& msg) {
    set_result(kInternal, "internal", msg.c_str());
    if (g_verbose) { printf("INTERNAL %s\n", msg.c_str()); fflush(stdout); }
    _exit(4);
}

// ---------------------------------------------------------------- contexts and scheduler
struct Ctx {
    int scope = 0; int task = -1;
    u64 steps = 0, next = ~0ull, op_budget_end = ~0ull;
    int op = 0;
    i64 arm = -1; bool sticky = false, fired = false; u64 nalloc = 0; i64 pend = 0; bool pend_sticky = false;
    sem_t sem; uintptr_t stk_lo = 0, stk_hi = 0;
    bool done = false; const void* waiting = nullptr;
    int prio = 0; u64 quantum = 0;
    std::vector<const Op*> mine; LastOut last{Out::ok, ""};
    std::vector<std::pair<i64, int>> sw; size_t swi = 0; // explicit switches of current op
    pthread_t th;
};
static Ctx g_main;
static Ctx* g = &g_main;
static std::vector<Ctx*> g_tasks;
static bool g_group = false;
static sem_t g_done;
static const Plan* g_plan;
static Rng g_srng(1);
static u64 g_budget = 150000000;
static bool g_huge = false;  // beyond 2^32 bits: given up when it takes too long
static u64 g_group_steps_base = 0;
static std::vector<u64> g_pct_points; static size_t g_pct_i = 0; static int g_pct_low = 0;
static const std::function<void(const Op&)>* g_fn;
static std::multimap<int, std::pair<i64, int>> g_explicit;
static u64 g_total_steps = 0;
static const u64 kQuantum = 20000;
static bool g_conflict = false;
LastOut& last_out() { return g->last; }

static void note_used() { u64 left = g->op_budget_end > g->steps ? g->op_budget_end - g->steps : 0; if (left <= g_budget) sh->used = std::max(sh->used, (g_budget - left) / (1 + g_budget / 1000)); }
void step_budget(u64 s) { note_used(); g_budget = s; g->op_budget_end = g->steps + s; if (g->next > g->op_budget_end) g->next = g->op_budget_end; }
void renew_budget() { step_budget(g_budget); }
u64 op_steps() { return g->steps; }
bool conflict_seen() { return g_conflict; }

static u64 draw_gap() {
    i64 m = g_plan->sched_gap < 1 ? 1 : g_plan->sched_gap;
    return 1 + g_srng.below((u64)(2 * m));
}
static void record(int op, i64 k, int to) {
    if (sh->nsw < kMaxSw) { sh->sw[sh->nsw].op = op; sh->sw[sh->nsw].k = k; sh->sw[sh->nsw].to = to; sh->nsw++; }
}
static bool runnable(Ctx* c);
static Ctx* task_by_id(int id) { for (auto c : g_tasks) if (c->task == id) return c; return nullptr; }
static Ctx* first_runnable(Ctx* except) { for (auto c : g_tasks) if (c != except && runnable(c)) return c; return nullptr; }
static Ctx* random_runnable(Ctx* except) {
    Ctx* r[64]; int n = 0;
    for (auto c : g_tasks) if (c != except && runnable(c) && n < 64) r[n++] = c;
    return n ? r[g_srng.below((u64)n)] : nullptr;
}
static Ctx* best_prio() {
    Ctx* b = nullptr;
    for (auto c : g_tasks) if (runnable(c) && (!b || c->prio > b->prio)) b = c;
    return b;
}
static void plan_next(Ctx* c) {
    u64 n = c->op_budget_end;
    if (g_group) {
        if (g_plan->explicit_sw) {
            if (c->swi < c->sw.size()) n = std::min<u64>(n, (u64)std::max<i64>(c->sw[c->swi].first, (i64)c->steps + 1));
        } else {
            n = std::min<u64>(n, c->quantum + kQuantum);
            if (g_plan->sched_mode == 1) n = std::min<u64>(n, c->steps + draw_gap());
            else if (g_plan->sched_mode == 3) n = std::min<u64>(n, c->steps + 4 * draw_gap());
            else if (g_plan->sched_mode == 2 && g_pct_i < g_pct_points.size()) {
                u64 done = g_total_steps - g_group_steps_base + c->steps;
                u64 p = g_pct_points[g_pct_i];
                n = std::min<u64>(n, c->steps + (p > done ? p - done : 1));
            }
        }
    }
    c->next = n;
}
static void switch_to(Ctx* to) {
    Ctx* me = g;
    if (to == me) return;
    sh->switches++;
    u64 v[3] = {(u64)me->op, me->steps, (u64)to->task};
    sh->sched_hash = fnv(v, sizeof v, sh->sched_hash);
    sh->hash = fnv(v, sizeof v, sh->hash);
    if (g_verbose) printf("  ~ switch at op %d step %llu: task %d -> %d\n", me->op, (unsigned long long)me->steps, me->task, to->task);
    g = to;
    sem_post(&to->sem);
    while (sem_wait(&me->sem) && errno == EINTR) {}
    // resumed: whoever woke us has set g = me
    sh->cur_op = me->op;
}
// preempt the current task inside an operation
static void preempt_to(Ctx* to) {
    if (!to || to == g) return;
    if (!g_plan->explicit_sw) record(g->op, (i64)g->steps, to->task);
    sh->preempts++; sh->nontrivial = true;
    switch_to(to);
}
static void slow(Ctx* c) {
    if (c->steps >= c->op_budget_end) {
        if (g_huge) { probe("huge_run_given_up"); if (sh->status == kRunning) sh->status = kOk; _exit(0); }
        c->scope = 0;
        fail("no-progress", "operation " + SI(c->op) + " exceeded its step budget of " + S(g_budget));
    }
    if (g_group) {
        if (g_plan->explicit_sw) {
            if (c->swi < c->sw.size() && (i64)c->steps >= c->sw[c->swi].first) {
                int to = c->sw[c->swi].second; c->swi++;
                plan_next(c);
                Ctx* t = task_by_id(to);
                if (t && runnable(t) && t != c) preempt_to(t);
                return;
            }
        } else if (g_plan->sched_mode == 2) {
            u64 done = g_total_steps - g_group_steps_base + c->steps;
            if (g_pct_i < g_pct_points.size() && done >= g_pct_points[g_pct_i]) { g_pct_i++; c->prio = --g_pct_low; }
            else if (c->steps >= c->quantum + kQuantum) { c->prio = --g_pct_low; c->quantum = c->steps; }
            Ctx* b = best_prio();
            plan_next(c);
            if (b && b != c) preempt_to(b);
            return;
        } else {
            bool q = c->steps >= c->quantum + kQuantum;
            if (q) c->quantum = c->steps;
            if (g_plan->sched_mode == 1 || g_plan->sched_mode == 3 || q) {
                Ctx* t = random_runnable(c);
                plan_next(c);
                if (t) preempt_to(t);
                return;
            }
        }
    }
    plan_next(c);
}
static inline void step() {
    Ctx* c = g;
    if (!c->scope) return;
    if (++c->steps >= c->next) slow(c);
}
// conflict table (guided mode)
struct Conf { uintptr_t key; unsigned r, w; };
static const size_t kConf = 1 << 14;
static Conf* g_conf;
static inline void access(uintptr_t a, bool w) {
    Ctx* c = g;
    if (!c->scope) return;
    if (g_group && c->task >= 0 && !(a >= c->stk_lo && a < c->stk_hi) && (g_plan->sched_mode == 3 || g_plan->explicit_sw)) {
        uintptr_t k = a >> 2; unsigned bit = 1u << (c->task & 31);
        size_t h = (k * 0x9e3779b97f4a7c15ull) >> 50;
        for (int i = 0; i < 8; i++) {
            Conf& e = g_conf[(h + i) & (kConf - 1)];
            if (e.key == 0) e.key = k;
            if (e.key == k) {
                bool conf = w ? ((e.r | e.w) & ~bit) : (e.w & ~bit);
                if (w) e.w |= bit; else e.r |= bit;
                if (conf) {
                    g_conflict = true;
                    if (!g_plan->explicit_sw && g_srng.chance(1, 3)) {
                        ++c->steps;
                        if (c->steps >= c->op_budget_end) slow(c);
                        Ctx* t = random_runnable(c);
                        if (t) preempt_to(t);
                        plan_next(c);
                        if (g_srng.chance(1, 2)) c->next = std::min(c->next, c->steps + 1 + g_srng.below(4));
                        return;
                    }
                }
                break;
            }
        }
    }
    if (++c->steps >= c->next) slow(c);
}
// blocking primitives (cooperative)
struct Lock { const void* addr; int kind; Ctx* owner; int depth; int readers; };
static std::vector<Lock>* g_locks;
static Lock& lock_of(const void* a) {
    for (auto& l : *g_locks) if (l.addr == a) return l;
    g_locks->push_back({a, 0, nullptr, 0, 0}); return g_locks->back();
}
static bool runnable(Ctx* c) { return !c->done && !c->waiting; }
static void wake(const void* a) { for (auto c : g_tasks) if (c->waiting == a) c->waiting = nullptr; }
static void block_on(const void* a) {
    Ctx* c = g; int saved = c->scope; c->scope = 0;
    if (!g_group) fail("deadlock", "lock taken twice by the same caller");
    c->waiting = a; c->steps++;
    Ctx* t = nullptr;
    if (g_plan->explicit_sw) {
        if (c->swi < c->sw.size() && c->sw[c->swi].first == (i64)c->steps) { t = task_by_id(c->sw[c->swi].second); c->swi++; if (t && !runnable(t)) t = nullptr; }
        if (!t) t = first_runnable(c);
    } else t = random_runnable(c);
    if (!t) fail("deadlock", "every task is blocked");
    preempt_to(t);
    c->scope = saved;
}

static void run_op(Ctx* c, const Op& op) {
    c->op = op.id; c->steps = 0; c->quantum = 0; c->op_budget_end = g_budget; c->sw.clear(); c->swi = 0;
    c->arm = -1; c->fired = false; c->nalloc = 0;
    if (g_plan->explicit_sw) {
        auto r = g_explicit.equal_range(op.id);
        for (auto it = r.first; it != r.second; ++it) if (it->second.first >= 0) c->sw.push_back(it->second);
        std::stable_sort(c->sw.begin(), c->sw.end(), [](auto& a, auto& b) { return a.first < b.first; });
    }
    plan_next(c);
    sh->cur_op = op.id; snprintf(sh->cur_name, sizeof sh->cur_name, "%s", op.name.c_str());
    if (g_verbose) { std::string s; for (auto v : op.a) s += " " + SI(v); printf("  > op %d task %d %s%s\n", op.id, op.task, op.name.c_str(), s.c_str()); fflush(stdout); }
    sh->hash = fnv(&op.id, sizeof op.id, sh->hash);
    c->scope = 0;
    (*g_fn)(op);
    note_used();
    c->arm = -1;
    sh->ops_done++;
    g_total_steps += c->steps; sh->steps = g_total_steps;
    sh->hash = fnv(&c->steps, sizeof c->steps, sh->hash);
    c->steps = 0;
}
static void after_op(Ctx* c, bool finished) {
    if (finished) c->done = true;
    Ctx* def = finished ? first_runnable(c) : c;
    Ctx* t = def;
    if (g_plan->explicit_sw) {
        auto r = g_explicit.equal_range(c->op);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second.first == -1) { Ctx* x = task_by_id(it->second.second); if (x && runnable(x)) t = x; }
    } else if (g_plan->sched_mode == 2) { Ctx* b = best_prio(); if (b) t = b; }
    else if (g_plan->sched_mode == 1 || g_plan->sched_mode == 3) {
        if (finished || g_srng.chance(1, 2)) { Ctx* x = random_runnable(finished ? c : nullptr); if (x) t = x; }
    }
    if (!t) {
        for (auto x : g_tasks) if (!x->done) fail("deadlock", "every remaining task is blocked");
        sem_post(&g_done); return;
    }
    if (t != def && !g_plan->explicit_sw) record(c->op, -1, t->task);
    if (t == c) return;
    u64 v[3] = {(u64)c->op, ~0ull, (u64)t->task};
    sh->sched_hash = fnv(v, sizeof v, sh->sched_hash); sh->hash = fnv(v, sizeof v, sh->hash);
    sh->switches++;
    if (g_verbose) printf("  ~ after op %d: task %d -> %d\n", c->op, c->task, t->task);
    g = t; sem_post(&t->sem);
    if (!finished) { while (sem_wait(&c->sem) && errno == EINTR) {} }
}
static void* task_main(void* p) {
    Ctx* c = (Ctx*)p;
    pthread_attr_t at; void* lo; size_t n;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &lo, &n); c->stk_lo = (uintptr_t)lo; c->stk_hi = c->stk_lo + n; pthread_attr_destroy(&at); }
    while (sem_wait(&c->sem) && errno == EINTR) {}
    for (size_t i = 0; i < c->mine.size(); i++) {
        run_op(c, *c->mine[i]);
        after_op(c, i + 1 == c->mine.size());
    }
    while (sem_wait(&c->sem) && errno == EINTR) {} // leave (and run thread-local destructors) one at a time, after the group
    return nullptr;
}
static void run_group(const std::vector<Op>& ops, size_t b, size_t e) {
    std::map<int, Ctx*> by;
    for (size_t i = b; i < e; i++) {
        Ctx*& c = by[ops[i].task];
        if (!c) { c = new Ctx; c->task = ops[i].task; sem_init(&c->sem, 0, 0); }
        c->mine.push_back(&ops[i]);
    }
    g_tasks.clear();
    for (auto& x : by) g_tasks.push_back(x.second);
    sem_init(&g_done, 0, 0);
    memset(g_conf, 0, kConf * sizeof(Conf));
    g_group_steps_base = g_total_steps;
    g_pct_points.clear(); g_pct_i = 0; g_pct_low = 0;
    if (!g_plan->explicit_sw && g_plan->sched_mode == 2) {
        std::vector<int> pr; for (size_t i = 0; i < g_tasks.size(); i++) pr.push_back((int)i + 1);
        for (size_t i = pr.size(); i > 1; i--) std::swap(pr[i - 1], pr[g_srng.below(i)]);
        for (size_t i = 0; i < g_tasks.size(); i++) g_tasks[i]->prio = pr[i];
        u64 len = 1ull << (4 + g_srng.below(11)); size_t d = 1 + g_srng.below(5);
        for (size_t i = 0; i < d; i++) g_pct_points.push_back(1 + g_srng.below(len));
        std::sort(g_pct_points.begin(), g_pct_points.end());
    }
    Ctx* first = g_tasks[0];
    if (g_plan->explicit_sw) {
        auto r = g_explicit.equal_range(ops[b].id);
        for (auto it = r.first; it != r.second; ++it) if (it->second.first == -2) { Ctx* x = task_by_id(it->second.second); if (x) first = x; }
    } else if (g_plan->sched_mode == 2) first = best_prio();
    else if (g_plan->sched_mode) first = random_runnable(nullptr);
    if (first != g_tasks[0] && !g_plan->explicit_sw) record(ops[b].id, -2, first->task);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
    for (auto c : g_tasks) if (pthread_create(&c->th, &at, task_main, c)) internal_error("pthread_create failed");
    g_group = true;
    g = first; sem_post(&first->sem);
    while (sem_wait(&g_done) && errno == EINTR) {}
    g_group = false; g = &g_main;
    for (auto c : g_tasks) { sem_post(&c->sem); pthread_join(c->th, nullptr); sem_destroy(&c->sem); }
    for (auto c : g_tasks) delete c;
    g_tasks.clear();
    pthread_attr_destroy(&at);
}
void Run::drive(const std::function<void(const Op&)>& f) {
    g_fn = &f;
    size_t i = 0; const auto& ops = plan.ops;
    while (i < ops.size()) {
        if (ops[i].task < 0) { run_op(&g_main, ops[i]); i++; }
        else { size_t j = i; while (j < ops.size() && ops[j].task >= 0) j++; run_group(ops, i, j); i = j; }
    }
    g_main.op = 0; g_main.steps = 0; g_main.op_budget_end = g_budget; g_main.next = g_budget; sh->cur_op = 0; strcpy(sh->cur_name, "final");
}
const Fault* Run::fault(int op, const char* kind) const {
    for (auto& f : plan.faults) if (f.op == op && f.kind == kind) return &f;
    return nullptr;
}
bool Run::arm(const Op& op) {
    // "alloc": the n-th allocation of this operation fails. "allocw": the n-th allocation from here on, in whichever armed operation.
    if (g->pend > 0) { if (g->fired) g->pend = 0; else g->pend = std::max<i64>(1, g->pend - (i64)g->nalloc); }
    g->fired = false; g->nalloc = 0;
    if (const Fault* w = fault(op.id, "allocw")) { g->pend = w->n; g->pend_sticky = w->m != 0; }
    if (const Fault* f = fault(op.id, "alloc")) { arm_alloc(f->n, f->m != 0); return true; }
    if (g->pend > 0) { arm_alloc(g->pend, g->pend_sticky); return true; }
    return false;
}
Unscope::Unscope() : saved(g->scope) { g->scope = 0; }
Unscope::~Unscope() { g->scope = saved; }

// ---------------------------------------------------------------- heap
static char* const kBase = (char*)0x200000000000ull;
static const size_t kArena = 4096ull << 20, kPoisonStep = 64u << 20;
static size_t g_poisoned = 0; // the arena ahead of the last block is poisoned up to here
static bool g_large = false;
static size_t g_room = 768u << 20; // what one run may take of the arena
static size_t g_bump = 0;
struct Hdr { u64 magic, size, seq; uint32_t state, align; }; // 32 bytes before the block
static const u64 kMagic = 0x51a110c5ed5ed5edull;
static HeapStat g_heap;
static int g_garbage = 3; static Rng g_grng(7);
static u64 g_reqlimit = 32u << 20, g_maxreq = 0;
static std::vector<std::pair<char*, size_t>>* g_freed;
static bool g_reuse = false;                                     // released blocks come back for requests of their size
static std::map<std::pair<size_t, size_t>, std::vector<char*>>* g_pool; // (size, alignment) -> released blocks
static inline bool in_arena(const void* p) { return (char*)p >= kBase && (char*)p < kBase + kArena; }
HeapStat heap() { g_heap.fired = g->fired; g_heap.op_allocs = g->nalloc; return g_heap; }
void arm_alloc(i64 k, bool sticky) { g->arm = (i64)k; g->nalloc = 0; g->sticky = sticky; g->fired = false; }
void disarm_alloc() { g->arm = -1; }
bool alloc_fired() { return g->fired; }
u64 allocs_since_arm() { return g->nalloc; }
void set_garbage(int m) { g_garbage = m; }
void set_request_limit(u64 b) { g_reqlimit = b; }
void large_run() { step_budget(5000000000ull); g_reqlimit = 256u << 20; g_large = true; }
void huge_run() { large_run(); g_huge = true; step_budget(3200000000ull); g_reqlimit = 1500u << 20; g_room = kArena; g_garbage = 2; }
u64 max_request_reset() { u64 m = g_maxreq; g_maxreq = 0; return m; }
void fill_garbage(void* p, size_t n, int mode, Rng& r) {
    char* c = (char*)p;
    switch (mode) {
    case 0: memset(c, 0, n); break;
    case 1: memset(c, 0xff, n); break;
    case 2: memset(c, 0xa5, n); break;
    default: {
        if (mode == 4 && g_freed && !g_freed->empty()) {
            auto& f = (*g_freed)[r.below(g_freed->size())];
            for (size_t i = 0; i < n; i++) c[i] = f.second ? f.first[i % f.second] : 0;
        } else {
            u64 v = 0; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) v = r.next(); c[i] = (char)(v >> (8 * (i % 8))); }
        }
    }
    }
}
static void* arena_alloc(size_t n, size_t align) {
    Ctx* c = g;
    c->nalloc++; g_heap.allocs++; sh->allocs++;
    if (n > g_maxreq) g_maxreq = n;
    if (n > g_heap.max_request) g_heap.max_request = n;
    if (c->arm > 0 && ((i64)c->nalloc == c->arm || (c->sticky && (i64)c->nalloc > c->arm))) {
        if (!c->fired) count_fault(c->sticky ? "alloc_sticky" : "alloc_once");
        c->fired = true; return nullptr;
    }
    if (n > g_reqlimit) { count_fault("alloc_over_limit"); return nullptr; }
    if (align < 16) align = 16;
    if (g_reuse && g_pool) {
        int saved = c->scope; c->scope = 0; char* p = nullptr; auto it = g_pool->find({n, align});
        if (it != g_pool->end() && !it->second.empty() && g_grng.chance(3, 4)) { p = it->second.back(); it->second.pop_back(); }
        if (p) {
            Hdr* h = (Hdr*)(p - sizeof(Hdr)); UNPOISON(p, n); h->seq = g_heap.allocs; h->state = 1; probe("address_reused");
            if (g_grng.chance(1, 2)) fill_garbage(p, n, g_garbage, g_grng);
            c->scope = saved; g_heap.live_blocks++; g_heap.live_bytes += n; return p;
        }
        c->scope = saved;
    }
    size_t off = g_bump + sizeof(Hdr); off = (off + align - 1) / align * align;
    size_t end = off + n; size_t fin = (end + 16 + 15) / 16 * 16;
    if (fin > g_room) {
        if (g_large) { probe("large_run_given_up"); if (sh->status == kRunning) sh->status = kOk; _exit(0); }
        return nullptr;
    }
    while (g_poisoned < fin) { POISON(kBase + g_poisoned, kPoisonStep); g_poisoned += kPoisonStep; }
    char* p = kBase + off; Hdr* h = (Hdr*)(p - sizeof(Hdr));
    UNPOISON(kBase + g_bump, fin - g_bump);
    char* start = kBase + g_bump;
    g_bump = fin;
    int saved = c->scope; c->scope = 0;
    h->magic = kMagic; h->size = n; h->seq = g_heap.allocs; h->state = 1; h->align = (uint32_t)align;
    memset(p + n, 0x5c, fin - end);
    fill_garbage(p, n, g_garbage, g_grng);
    POISON(start, (size_t)(p - start));
    { size_t t = end / 8 * 8; if (n % 8) POISON(kBase + t, fin - t); else POISON(p + n, fin - end); }
    UNPOISON(p, n); (void)start;
    c->scope = saved;
    g_heap.live_blocks++; g_heap.live_bytes += n;
    return p;
}
static void arena_free(void* q) {
    if (!q) return;
    char* p = (char*)q; Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (p < kBase + sizeof(Hdr) || h->magic != kMagic) fail("memory", "invalid or corrupted block released");
    if (h->state != 1) fail("memory", "block released twice");
    for (size_t i = 0; i < 16; i++) if (p[h->size + i] != 0x5c) fail("memory", "write past the end of a block of " + S(h->size) + " bytes");
    h->state = 2; g_heap.live_blocks--; g_heap.live_bytes -= h->size;
    Ctx* c = g; int saved = c->scope; c->scope = 0;
    if (!g_freed) g_freed = new std::vector<std::pair<char*, size_t>>;
    if (g_freed->size() < 64) g_freed->push_back({p, h->size}); else (*g_freed)[h->seq % 64] = {p, h->size};
#ifndef SIM_ASAN
    if (g_garbage != 4) memset(p, 0xde, h->size);
#endif
    POISON(p, h->size);
    if (g_reuse) { if (!g_pool) g_pool = new std::map<std::pair<size_t, size_t>, std::vector<char*>>; (*g_pool)[{h->size, h->align}].push_back(p); }
    c->scope = saved;
}
// Blocks that statics and thread locals of the program still lead to are not lost: caches and tables built on first use.
#if defined(__clang__)
#define NO_ASAN __attribute__((no_sanitize("address")))
#else
#define NO_ASAN
#endif
namespace {
struct LiveBlock { char* p; u64 size, seq; bool reached; };
struct Roots { std::vector<LiveBlock>* v; std::vector<size_t>* todo; };
}
NO_ASAN static void scan_words(const char* a, const char* e, Roots& r) {
    for (uintptr_t x = ((uintptr_t)a + 7) / 8 * 8; x + 8 <= (uintptr_t)e; x += 8) {
        char* q = *(char* volatile*)x; if (!in_arena(q)) continue;
        auto& v = *r.v; size_t lo = 0, hi = v.size(); // the last block that begins at or before q
        while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p <= q) lo = m + 1; else hi = m; }
        if (lo && q <= v[lo - 1].p + v[lo - 1].size && !v[lo - 1].reached) { v[lo - 1].reached = true; r.todo->push_back(lo - 1); }
    }
}
static int scan_object(dl_phdr_info* i, size_t, void* d) {
    Roots& r = *(Roots*)d;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) scan_words((char*)i->dlpi_addr + h.p_vaddr, (char*)i->dlpi_addr + h.p_vaddr + h.p_memsz, r);
        if (h.p_type == PT_TLS && i->dlpi_tls_data) scan_words((char*)i->dlpi_tls_data, (char*)i->dlpi_tls_data + h.p_memsz, r);
    }
    return 1; // the program itself only: the first object
}
NO_ASAN u64 lost_blocks(u64 before, u64 mark) {
    if (g_heap.live_blocks <= before) return 0;
    int saved = g->scope; g->scope = 0;
    std::vector<LiveBlock> v; std::vector<size_t> todo; Roots r{&v, &todo};
    for (char* h = kBase; h + sizeof(Hdr) <= kBase + g_bump; h += 16) { const volatile Hdr* b = (const volatile Hdr*)h; if (b->magic == kMagic && b->state == 1) v.push_back({h + sizeof(Hdr), b->size, b->seq, false}); }
    dl_iterate_phdr(scan_object, &r);
    while (!todo.empty()) { auto& b = v[todo.back()]; todo.pop_back(); scan_words(b.p, b.p + b.size, r); }
    u64 kept = 0; for (auto& b : v) if (b.reached && b.seq > mark) kept++;
    if (kept) probe("blocks_kept_by_statics");
    u64 more = g_heap.live_blocks - before;
    g->scope = saved;
    return more > kept ? more - kept : 0;
}
static inline void* sim_alloc(size_t n, size_t align, bool nothrow) {
    if (g->scope) {
        void* p = arena_alloc(n, align);
        if (!p && !nothrow) { throw std::bad_alloc(); }
        return p;
    }
    void* p = nullptr;
    if (align <= 16) p = __real_malloc(n ? n : 1);
    else if (__real_posix_memalign(&p, align, n ? n : 1)) p = nullptr;
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static inline void sim_free(void* p) { if (in_arena(p)) arena_free(p); else __real_free(p); }

// ---------------------------------------------------------------- streams
size_t SimIn::chunk(size_t want) {
    size_t left = limit - pos;
    size_t n = want < left ? want : left;
    if (n > 1 && mode == 2) n = 1 + rng.below(n < 7 ? n : 7);
    else if (n > 1 && mode == 3) n = 1;
    else if (n > 1 && mode == 1) n = 1 + rng.below(n);
    return n;
}
SimIn::int_type SimIn::underflow() {
    Unscope u;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t n = chunk(sizeof buf);
    if (n == 0) {
        if (limit < data.size() || throw_at_limit) { if (!hit_limit) count_fault(throw_at_limit ? "in_throw" : "in_eof"); hit_limit = true; }
        bool thr = throw_at_limit; if (passing) { limit = data.size(); throw_at_limit = false; }
        if (thr) throw std::ios_base::failure("simulated read error");
        return traits_type::eof();
    }
    memcpy(buf, data.data() + pos, n); pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(*gptr());
}
std::streamsize SimIn::xsgetn(char* s, std::streamsize n) {
    Unscope u;
    std::streamsize done = 0;
    while (done < n) {
        if (gptr() < egptr()) {
            std::streamsize k = std::min<std::streamsize>(n - done, egptr() - gptr());
            memcpy(s + done, gptr(), (size_t)k); gbump((int)k); done += k;
        } else if (mode == 0 || mode == 1) { // direct transfer
            size_t k = chunk((size_t)(n - done));
            if (k == 0) { if (underflow() == traits_type::eof()) break; continue; }
            if (k < (size_t)(n - done)) count_fault("short_transfer");
            memcpy(s + done, data.data() + pos, k); pos += k; done += (std::streamsize)k;
        } else {
            if (underflow() == traits_type::eof()) break;
            if (egptr() - gptr() < n - done) count_fault("short_transfer");
        }
    }
    return done;
}
SimOut::SimOut(size_t cap, bool thr, int mode, u64 seed) : capacity(cap), throw_at_cap(thr), mode(mode), rng(seed) {
    if (mode == 2) setp(buf, buf + 1 + rng.below(sizeof buf - 1));
}
size_t SimOut::accept(const char* s, size_t n) {
    size_t room = capacity - got.size(); size_t k = n < room ? n : room;
    got.append(s, k);
    if (k < n) {
        if (!hit_cap) count_fault(throw_at_cap ? "out_throw" : "out_full");
        hit_cap = true; bool thr = throw_at_cap; if (passing) { capacity = ~(size_t)0 >> 1; throw_at_cap = false; }
        if (thr) throw std::ios_base::failure("simulated write error");
    }
    return k;
}
bool SimOut::drain() {
    size_t n = (size_t)(pptr() - pbase());
    char* b = pbase(); char* e = epptr();
    setp(b, e); // consumed either way: what is not accepted is lost, as with a full device
    return n == 0 || accept(b, n) == n;
}
SimOut::int_type SimOut::overflow(int_type c) {
    Unscope u;
    if (mode == 2) {
        if (!drain()) return traits_type::eof();
        if (c != traits_type::eof()) { *pptr() = (char)c; pbump(1); }
        return traits_type::not_eof(c);
    }
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    char ch = (char)c;
    return accept(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize SimOut::xsputn(const char* s, std::streamsize n) {
    Unscope u;
    std::streamsize done = 0;
    if (mode == 2) {
        while (done < n) {
            if (pptr() == epptr() && !drain()) return done;
            std::streamsize k = std::min<std::streamsize>(n - done, epptr() - pptr());
            memcpy(pptr(), s + done, (size_t)k); pbump((int)k); done += k;
        }
        return done;
    }
    while (done < n) {
        size_t k = (size_t)(n - done);
        if (mode == 1 && k > 1) { k = 1 + rng.below(k); if (k < (size_t)(n - done)) count_fault("short_transfer"); }
        size_t a = accept(s + done, k); done += (std::streamsize)a;
        if (a < k) break;
    }
    return done;
}
int SimOut::sync() { Unscope u; return mode == 2 ? (drain() ? 0 : -1) : 0; }
void SimOut::finish() { if (mode == 2) { try { drain(); } catch (...) {} } }

} // namespace sim
using namespace sim;

// ---------------------------------------------------------------- seam callbacks
extern "C" {
void simc_enter() { g->scope++; }
void simc_leave() { g->scope--; }
// clang
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { step(); }
#define COV(n) void __sanitizer_cov_load##n(void* a) { access((uintptr_t)a, false); } \
               void __sanitizer_cov_store##n(void* a) { access((uintptr_t)a, true); }
COV(1) COV(2) COV(4) COV(8) COV(16)
// gcc
void __sanitizer_cov_trace_pc() { step(); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define TS(n) void __tsan_read##n(void* a) { access((uintptr_t)a, false); } \
              void __tsan_write##n(void* a) { access((uintptr_t)a, true); } \
              void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, false); } \
              void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, true); } \
              void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, false); } \
              void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void* a, size_t) { access((uintptr_t)a, false); }
void __tsan_write_range(void* a, size_t) { access((uintptr_t)a, true); }
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, true); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, false); }
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { access((uintptr_t)a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((uintptr_t)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((uintptr_t)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((uintptr_t)a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((uintptr_t)a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((uintptr_t)a, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(); }
void __tsan_atomic_signal_fence(int) {}

// function-local statics
int __cxa_guard_acquire(uint64_t* gd) {
    auto b = (unsigned char*)gd;
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        block_on(gd);
    }
}
void __cxa_guard_release(uint64_t* gd) { auto b = (unsigned char*)gd; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); wake(gd); }
void __cxa_guard_abort(uint64_t* gd) { auto b = (unsigned char*)gd; b[1] = 0; wake(gd); }

// mutexes: cooperative inside the code under test, real outside
#define REAL(name) ([]() { static decltype(&name) f = (decltype(&name))dlsym(RTLD_NEXT, #name); return f; }())
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g->scope) return REAL(pthread_mutex_lock)(m);
    step();
    int sc = g->scope; g->scope = 0;
    for (;;) {
        Lock& l = lock_of(m);
        if (!l.owner && !l.readers) { l.owner = g; l.depth = 1; break; }
        if (l.owner == g && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { l.depth++; break; }
        block_on(m);
    }
    g->scope = sc; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g->scope) return REAL(pthread_mutex_trylock)(m);
    step();
    int sc = g->scope; g->scope = 0;
    Lock& l = lock_of(m); int r = 0;
    if (!l.owner && !l.readers) { l.owner = g; l.depth = 1; }
    else if (l.owner == g && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) l.depth++;
    else r = EBUSY;
    g->scope = sc; return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g->scope) {
        if (g_locks) for (auto& l : *g_locks) if (l.addr == m && l.owner == g) { if (--l.depth == 0) { l.owner = nullptr; wake(m); } return 0; }
        return REAL(pthread_mutex_unlock)(m);
    }
    int sc = g->scope; g->scope = 0;
    Lock& l = lock_of(m); if (l.owner == g && --l.depth == 0) { l.owner = nullptr; wake(m); }
    g->scope = sc; step(); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!g->scope) return REAL(pthread_rwlock_wrlock)(m);
    step(); int sc = g->scope; g->scope = 0;
    for (;;) { Lock& l = lock_of(m); if (!l.owner && !l.readers) { l.owner = g; l.depth = 1; break; } block_on(m); }
    g->scope = sc; return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!g->scope) return REAL(pthread_rwlock_rdlock)(m);
    step(); int sc = g->scope; g->scope = 0;
    for (;;) { Lock& l = lock_of(m); if (!l.owner) { l.readers++; break; } block_on(m); }
    g->scope = sc; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!g->scope) return REAL(pthread_rwlock_unlock)(m);
    int sc = g->scope; g->scope = 0;
    Lock& l = lock_of(m); if (l.owner == g) l.owner = nullptr; else if (l.readers) l.readers--;
    wake(m); g->scope = sc; step(); return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!g->scope) return REAL(pthread_once)(o, f);
    for (;;) {
        if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) return 0;
        if (*o == 0) {
            *o = 1;
            try { f(); } catch (...) { *o = 0; wake(o); throw; }
            *o = 2; wake(o); return 0;
        }
        block_on(o);
    }
}
int sched_yield(void) {
    if (g->scope && g_group && !g_plan->explicit_sw) { g->steps++; Ctx* t = random_runnable(g); if (t) preempt_to(t); plan_next(g); return 0; }
    if (g->scope) { step(); return 0; }
    return (int)syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (g->scope) return sched_yield();
    return (int)syscall(SYS_nanosleep, a, b);
}
int clock_gettime(clockid_t c, struct timespec* ts) { // simulated clock: one step = 1 us
    if (g->scope) { u64 us = g_total_steps + g->steps; ts->tv_sec = (time_t)(1000000 + us / 1000000); ts->tv_nsec = (long)(us % 1000000 * 1000); return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
void* __wrap_malloc(size_t n) { return g->scope ? arena_alloc(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) { if (in_arena(p)) arena_free(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) {
    if (!g->scope) return __real_calloc(a, b);
    if (b && a > (~(size_t)0) / b) return nullptr;
    void* p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p;
}
void* __wrap_realloc(void* p, size_t n) {
    if (p && !in_arena(p)) return __real_realloc(p, n);
    if (!p && !g->scope) return __real_realloc(p, n);
    void* q = arena_alloc(n, 16); if (!q) return nullptr;
    if (p) { Hdr* h = (Hdr*)((char*)p - sizeof(Hdr)); memcpy(q, p, h->size < n ? h->size : n); arena_free(p); }
    return q;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (!g->scope) return __real_posix_memalign(out, al, n);
    void* p = arena_alloc(n, al); if (!p) return ENOMEM; *out = p; return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { return g->scope ? arena_alloc(n, al) : __real_aligned_alloc(al, n); }
} // extern C

void* operator new(size_t n) { return sim_alloc(n, 16, false); }
void* operator new[](size_t n) { return sim_alloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim_alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_alloc(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_alloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

#ifdef SIM_ASAN
extern "C" const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=1:print_legend=0:handle_segv=1:handle_abort=0:"
           "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:quarantine_size_mb=1:malloc_context_size=0:allow_user_poisoning=1:detect_container_overflow=1";
}
extern "C" void __asan_on_error() {
    if (sh && sh->status == kRunning) {
        const char* d = __asan_get_report_description();
        char m[300]; snprintf(m, sizeof m, "invalid memory access (%s) during op %d %s", d ? d : "?", sh->cur_op, sh->cur_name);
        set_result(kViolation, "memory", m);
    }
    if (!g_verbose) _exit(99);
}
#endif

// ---------------------------------------------------------------- process per run
namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

struct Result { int status; std::string cls, msg; int op; std::string opname; u64 hash, sched_hash, steps, switches, preempts, allocs, faults, ops, used; bool nontrivial; };

void on_crash(int sig) {
    char m[200]; snprintf(m, sizeof m, "signal %d during op %d %s", sig, sh->cur_op, sh->cur_name);
    set_result(kViolation, "crash", m);
    if (g_verbose) { (void)!write(1, m, strlen(m)); (void)!write(1, "\n", 1); }
    _exit(5);
}
Result execute(const Plan& p, bool verb) {
    size_t head = offsetof(Shared, sw);
    memset((void*)sh, 0, head); sh->hash = 1469598103934665603ull; sh->sched_hash = sh->hash;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        g_verbose = verb;
        alarm(90);
        static char altstk[65536]; stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
#ifndef SIM_ASAN
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
#endif
        sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
        if (!verb) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
        g_plan = &p; g_srng = Rng(p.sched_seed * 2 + 1); g_grng = Rng(p.seed ^ 0x6a09e667f3bcc909ull);
        g_garbage = (int)p.get("garbage", 3); g_reuse = p.get("reuse");
        g_locks = new std::vector<Lock>; g_locks->reserve(64);
        for (auto& s : p.sw) g_explicit.insert({s.op, {s.k, s.to}});
        { char here; g_main.stk_hi = (uintptr_t)&here + 65536; g_main.stk_lo = g_main.stk_hi - (8u << 20); }
        g_main.op_budget_end = g_budget; g_main.next = g_budget;
        Run r(p);
        try { kProperty.run(r); }
        catch (const std::exception& e) { internal_error(std::string("harness exception: ") + e.what()); }
        catch (...) { internal_error("harness exception"); }
        note_used(); if (sh->status == kRunning) sh->status = kOk;
        sh->hash = fnv(&sh->steps, 8, sh->hash);
        if (verb) { printf("hash %016llx\n", (unsigned long long)sh->hash); fflush(stdout); }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    if (sh->status == kRunning) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && (p.get("large") || p.get("huge"))) sh->status = kOk; // a large run too slow for this machine decides nothing
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { sh->status = kInternal; strcpy(sh->cls, "internal"); snprintf(sh->msg, sizeof sh->msg, "run exceeded its wall-clock limit in op %d %s", sh->cur_op, sh->cur_name); }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && p.get("huge")) sh->status = kOk; // nor one for which the machine had no memory
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { sh->status = kInternal; strcpy(sh->cls, "internal"); strcpy(sh->msg, "run was killed"); }
        else { sh->status = kViolation; strcpy(sh->cls, "crash"); snprintf(sh->msg, sizeof sh->msg, "process died (%s %d) in op %d %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), sh->cur_op, sh->cur_name); }
    }
    r.status = sh->status; r.cls = sh->cls; r.msg = sh->msg; r.op = sh->cur_op; r.opname = sh->cur_name;
    r.used = sh->used; r.hash = sh->hash; r.sched_hash = sh->sched_hash; r.steps = sh->steps; r.switches = sh->switches; r.preempts = sh->preempts;
    r.allocs = sh->allocs; r.faults = sh->faults; r.ops = sh->ops_done; r.nontrivial = sh->nontrivial;
    return r;
}
Plan generate(u64 seed, int tier) {
    Plan p; p.prop = kProperty.id; p.seed = seed;
    Rng r(seed * 0x9e3779b97f4a7c15ull + 0x1234567);
    p.cfg["garbage"] = r.one_of<i64>({0, 1, 2, 3, 3, 4}); p.cfg["reuse"] = r.chance(1, 3);
    kProperty.gen(r, p, tier);
    return p;
}
std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o;
}
Plan explicit_of(const Plan& p) { // from the switches the last run recorded
    Plan q = p; q.explicit_sw = true; q.sw.clear();
    for (u64 i = 0; i < sh->nsw; i++) q.sw.push_back(sh->sw[i]);
    return q;
}
std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
void print_result(const Result& r) {
    printf("{\"status\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"op\":%d,\"opname\":\"%s\",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"preempts\":%llu,\"faults\":%llu}\n",
        r.status, jesc(r.cls).c_str(), jesc(r.msg).c_str(), r.op, jesc(r.opname).c_str(), (unsigned long long)r.hash, (unsigned long long)r.sched_hash,
        (unsigned long long)r.steps, (unsigned long long)r.preempts, (unsigned long long)r.faults);
    fflush(stdout);
}
double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
} // namespace

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* a = mmap(kBase, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != kBase || sh == MAP_FAILED) { fprintf(stderr, "cannot map the arena\n"); return 2; }
    POISON(kBase, kPoisonStep); g_poisoned = kPoisonStep;
    g_conf = (Conf*)__real_calloc(kConf, sizeof(Conf));
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen") { printf("%s", generate(strtoull(argv[2], 0, 0), argc > 3 ? atoi(argv[3]) : 0).text().c_str()); return 0; }
    if (cmd == "exec") { // exec PLANFILE [-v]
        Plan p; if (!p.parse(slurp(argv[2]))) { fprintf(stderr, "bad plan\n"); return 2; }
        auto r = execute(p, argc > 3);
        print_result(r); return r.status == kOk ? 0 : r.status == kViolation ? 1 : 2;
    }
    if (cmd == "execmany") { // plan files named on stdin, one result line each
        std::string f;
        while (std::getline(std::cin, f)) { Plan p; if (!p.parse(slurp(f.c_str()))) { printf("{\"status\":9}\n"); fflush(stdout); continue; } print_result(execute(p, false)); }
        return 0;
    }
    if (cmd == "explicit") { // explicit SEED TIER OUT: run a seed, write the plan with the schedule that was taken
        Plan p = generate(strtoull(argv[2], 0, 0), atoi(argv[3]));
        auto r = execute(p, false); Plan q = explicit_of(p);
        std::ofstream(argv[4]) << q.text(); print_result(r); return 0;
    }
    if (cmd == "seed") { Plan p = generate(strtoull(argv[2], 0, 0), argc > 3 ? atoi(argv[3]) : 0); auto r = execute(p, argc > 4); print_result(r); return r.status == kOk ? 0 : r.status == kViolation ? 1 : 2; }
    if (cmd == "batch") { // batch BASE START STRIDE COUNT SECONDS TIER HASHFILE
        u64 base = strtoull(argv[2], 0, 0), start = strtoull(argv[3], 0, 0), stride = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0);
        double secs = atof(argv[6]); int tier = atoi(argv[7]);
        FILE* hf = fopen(argv[8], "wb");
        double t0 = now(); u64 done = 0, nontriv = 0, steps = 0, sw = 0, pre = 0, allocs = 0, faults = 0, ops = 0, viol = 0, internal = 0;
        std::map<std::string, u64> probes, fk, opc; std::string sample; u64 maxsteps = 0, used = 0, used_seed = 0;
        for (u64 i = start; i < count; i += stride) {
            if (now() - t0 > secs) break;
            u64 seed = base + i;
            Plan p = generate(seed, tier);
            auto r = execute(p, false);
            done++; nontriv += r.nontrivial; steps += r.steps; sw += r.switches; pre += r.preempts; allocs += r.allocs; faults += r.faults; ops += r.ops;
            maxsteps = std::max(maxsteps, r.steps); if (r.used > used) { used = r.used; used_seed = seed; }
            for (int k = 0; k < sh->nprobes; k++) probes[sh->probes[k].name] += sh->probes[k].n;
            for (int k = 0; k < sh->nfk; k++) fk[sh->fkinds[k].name] += sh->fkinds[k].n;
            for (auto& o : p.ops) opc[o.name]++;
            u64 rec[4] = {seed, r.hash, r.preempts || r.switches ? r.sched_hash : 0, r.nontrivial ? 1ull : 0ull};
            fwrite(rec, sizeof rec, 1, hf);
            if (r.status == kViolation || r.status == kInternal) {
                (r.status == kViolation ? viol : internal)++;
                printf("FOUND %llu %d %s %016llx %s\n", (unsigned long long)seed, r.status, r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
                fflush(stdout);
                if (viol >= 12 || internal >= 3) break;
            }
        }
        fclose(hf);
        printf("SUMMARY {\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"allocs\":%llu,\"faults\":%llu,\"ops\":%llu,\"viol\":%llu,\"internal\":%llu,\"maxsteps\":%llu,\"budget_permille\":%llu,\"budget_seed\":%llu,\"secs\":%.2f",
            (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)allocs, (unsigned long long)faults,
            (unsigned long long)ops, (unsigned long long)viol, (unsigned long long)internal, (unsigned long long)maxsteps, (unsigned long long)used, (unsigned long long)used_seed, now() - t0);
        auto dump = [](const char* n, std::map<std::string, u64>& m) { printf(",\"%s\":{", n); bool f = true; for (auto& x : m) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); f = false; } printf("}"); };
        dump("probes", probes); dump("fault_kinds", fk); dump("op_counts", opc);
        printf("}\n");
        return 0;
    }
    fprintf(stderr, "usage: gen|seed|exec|execmany|explicit|batch\n");
    return 2;
}
