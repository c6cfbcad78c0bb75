// See sched.hpp. This file is compiled without instrumentation and replaces libgomp and libtsan.
#include "sched.hpp"
#include <algorithm>
#include <cassert>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <malloc.h>
#include <map>
#include <new>
#include <random>
#include <sys/mman.h>
#include <ucontext.h>
#include <execinfo.h>
#include <unordered_map>
#include <dlfcn.h>

namespace {
constexpr int MAXT = 8;
using Clk = uint32_t;
struct VC { Clk c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

// ---------- allocation that bypasses the overridden operator new bookkeeping
bool g_on = false;         // inside a multi-thread region
bool g_internal = false;   // runtime code running

enum Op { opStart, opChunk, opLock, opAtomic, opBarrier, opNone };
struct Fiber {
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = true, started = false;
    Op op = opNone; const void* obj = nullptr;   // pending operation
    VC vc;
    void* eh[2] = {nullptr, nullptr};
    long loop_next_static = 0;
};
Fiber F[MAXT];
int T = 1, cur = 0;            // team size, current fiber
ucontext_t g_main;
constexpr size_t STACK = 8u << 20;
void (*g_fn)(void*); void* g_data;
uint32_t g_region = 0;         // shadow epoch
struct Lock { int owner = -1; VC vc{}; };
std::map<const void*, Lock>* g_locks;
std::map<const void*, VC>* g_atomics;
struct Loop { long next, end, incr, chunk; bool init = false; };
Loop g_loop;
int g_barrier_waiting = 0;
VC g_barrier_vc;
int g_single = 0; int g_single_count[MAXT];
VC g_master_vc;

sched::Config g_cfg;
size_t g_region_no = 0;
int teamSize(int req) {
    if (req > 0) return req > MAXT ? MAXT : req;
    if (g_cfg.team.empty()) return 1;
    size_t i = g_region_no < g_cfg.team.size() ? g_region_no : g_cfg.team.size() - 1;
    int n = g_cfg.team[i];
    return n < 1 ? 1 : n > MAXT ? MAXT : n;
}
// ---------- exploration state
std::vector<int> g_prefix, g_taken, g_width;
std::vector<int> g_cost_at;    // preemptions used before the choice
std::vector<char> g_free;      // whether alternatives at this point are free
size_t g_pos = 0; int g_used = 0;
std::string g_problem;
std::string* g_trace;
long long g_points = 0, g_accesses = 0;

void problem(const std::string& s) { if (g_problem.empty()) g_problem = s; }

// ---------- shadow memory
struct Cell {                   // 8 bytes of memory
    uint32_t region = 0;
    uint8_t lt = 0, lb = 0, lw = 0; Clk lc = 0;   // last access: thread, bytes, write?, clock (a repetition changes nothing)
    uint8_t wt[8]; Clk wc[8];   // last write per byte
    Clk rc[8][MAXT];            // last read per byte and thread
};
struct Page { Cell c[64]; };    // 512 bytes of memory
constexpr size_t NB = 1u << 20;
struct Ent { uintptr_t key; Page* p; };
Ent* g_tab;
Page* page(uintptr_t a) {
    uintptr_t k = (a >> 9) + 1;
    size_t h = (k * 0x9E3779B97F4A7C15ULL) >> 44;
    while (g_tab[h].key && g_tab[h].key != k) h = (h + 1) & (NB - 1);
    if (!g_tab[h].key) {
        g_tab[h].key = k;
        g_tab[h].p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_tab[h].p == MAP_FAILED) { fputs("shadow memory exhausted\n", stderr); _exit(3); }
    }
    return g_tab[h].p;
}
std::string where(void* pc) {
    Dl_info i{}; char b[512];
    if (dladdr(pc, &i) && i.dli_sname) {
        int st = 0; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        snprintf(b, sizeof b, "%.300s", st == 0 && d ? d : i.dli_sname); free(d);
    } else snprintf(b, sizeof b, "code offset 0x%zx", (size_t)pc - (size_t)i.dli_fbase);
    return b;
}
void race(uintptr_t a, int other, bool w, bool ow, void* pc) {
    char b[256];
    snprintf(b, sizeof b, "data race: thread %d %s memory that thread %d %s without synchronisation, in ", cur, w ? "writes" : "reads", other, ow ? "wrote" : "read");
    (void)a;
    problem(std::string(b) + where(pc));
}
inline void access1(uintptr_t a, size_t n, bool w, void* pc) {
    ++g_accesses;
    const VC& me = F[cur].vc;
    while (n) {
        Page* p = page(a);
        Cell& c = p->c[(a >> 3) & 63];
        size_t o = a & 7, m = std::min<size_t>(8 - o, n);
        uint8_t bits = (uint8_t)(((1u << m) - 1) << o);
        if (c.region == g_region && c.lt == cur && c.lc == me.c[cur] && (c.lb & bits) == bits && c.lw >= (uint8_t)w) { a += m; n -= m; continue; }
        if (c.region != g_region) { memset((void*)&c, 0, sizeof c); c.region = g_region; }
        if (c.lt == cur && c.lc == me.c[cur] && c.lw == (uint8_t)w) c.lb |= bits; else { c.lt = (uint8_t)cur; c.lc = me.c[cur]; c.lw = w; c.lb = bits; }
        for (size_t i = o; i < o + m; ++i) {
            if (c.wc[i] > me.c[c.wt[i]] && c.wt[i] != cur) { race(a, c.wt[i], w, true, pc); }
            if (w) {
                for (int t = 0; t < T; ++t) if (t != cur && c.rc[i][t] > me.c[t]) race(a, t, true, false, pc);
                c.wt[i] = (uint8_t)cur; c.wc[i] = me.c[cur];
            } else c.rc[i][cur] = me.c[cur];
        }
        a += m; n -= m;
    }
}
inline void acc(const void* a, size_t n, bool w, void* pc) { if (g_on && !g_internal && n) { g_internal = true; access1((uintptr_t)a, n, w, pc); g_internal = false; } }
void clearRange(const void* q, size_t n) {
    if (!g_on) return;
    uintptr_t a = (uintptr_t)q, e = a + n;
    while (a < e) {
        Page* p = page(a);
        Cell& c = p->c[(a >> 3) & 63];
        size_t o = a & 7, m = std::min<size_t>(8 - o, e - a);
        if (c.region == g_region) { c.lb = 0; c.lc = 0; } if (c.region == g_region) for (size_t i = o; i < o + m; ++i) { c.wc[i] = 0; c.wt[i] = 0; for (int t = 0; t < MAXT; ++t) c.rc[i][t] = 0; }
        a += m;
    }
}

// ---------- fibers
void ehSave(Fiber& f) { auto* g = (void**)abi::__cxa_get_globals(); f.eh[0] = g[0]; f.eh[1] = g[1]; }
void ehLoad(Fiber& f) { auto* g = (void**)abi::__cxa_get_globals(); g[0] = f.eh[0]; g[1] = f.eh[1]; }
void fiberMain() {
    int me = cur;
    g_internal = false;
    g_fn(g_data);
    g_internal = true;
    F[me].done = true; F[me].op = opNone;
    setcontext(&g_main);
}
bool enabled(int t) {
    if (F[t].done) return false;
    if (F[t].op == opLock) { auto it = g_locks->find(F[t].obj); return it == g_locks->end() || it->second.owner < 0; }
    if (F[t].op == opBarrier) { int w = 0; for (int i = 0; i < T; ++i) if (!F[i].done && F[i].op != opBarrier) ++w; return w == 0; }
    return true;
}
// yield to the scheduler with a pending operation; returns when the operation may be executed
void yieldOp(Op op, const void* obj) {
    if (!g_on) return;
    bool in = g_internal; g_internal = true;
    F[cur].op = op; F[cur].obj = obj;
    int me = cur;
    ehSave(F[me]);
    swapcontext(&F[me].ctx, &g_main);
    ehLoad(F[me]);
    F[me].op = opNone;
    g_internal = in;
}
void resume(int t) { cur = t; swapcontext(&g_main, &F[t].ctx); }

int choose(const std::vector<int>& en, int last) {
    if (en.size() == 1) return en[0];
    // order: the last thread first (no preemption), then the others
    std::vector<int> o; bool has = false;
    for (int t : en) if (t == last) { has = true; o.push_back(t); }
    for (int t : en) if (t != last) o.push_back(t);
    size_t width = o.size();
    if (has && g_used >= g_cfg.preemptions) width = 1;
    ++g_points;
    int ch = 0;
    if (width > 1) {
        if (g_pos < g_prefix.size()) ch = g_prefix[g_pos];
        if (ch >= (int)width) { problem("harness: replay diverged"); ch = 0; }
        g_taken.push_back(ch); g_width.push_back((int)width);
        ++g_pos;
    }
    if (has && ch > 0) ++g_used;
    return o[(size_t)ch];
}

void runTeam(void (*fn)(void*), void* data, int n) {
    ++g_region_no;
    if (n == 1 || g_on) {   // serial (or nested: serialised)
        int t = T, c = cur; (void)c;
        bool on = g_on;
        if (!on) { T = 1; cur = 0; }
        else { fputs("nested parallelism is not supported by this runtime\n", stderr); _exit(3); }
        Loop l = g_loop; (void)l;
        fn(data);
        T = t;
        return;
    }
    g_internal = true;
    T = n; g_fn = fn; g_data = data; ++g_region;
    g_locks->clear(); g_atomics->clear(); g_single = 0; memset(g_single_count, 0, sizeof g_single_count);
    for (int t = 0; t < n; ++t) {
        Fiber& f = F[t];
        if (!f.stack) f.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = &g_main;
        makecontext(&f.ctx, fiberMain, 0);
        f.done = false; f.op = opNone; f.eh[0] = f.eh[1] = nullptr;
        f.vc = g_master_vc;                       // fork edge
    }
    for (int t = 0; t < n; ++t) F[t].vc.c[t] = std::max(F[t].vc.c[t], g_master_vc.c[t]) + 1;
    auto* g = (void**)abi::__cxa_get_globals(); void* e0 = g[0]; void* e1 = g[1];
    g_on = true;
    // run every fiber up to its first synchronisation operation (independent prefixes)
    for (int t = 0; t < n; ++t) { g[0] = g[1] = nullptr; resume(t); g_internal = true; }
    int last = -1;
    for (;;) {
        std::vector<int> en; bool alive = false;
        for (int t = 0; t < n; ++t) { if (!F[t].done) alive = true; if (enabled(t)) en.push_back(t); }
        if (!alive) break;
        if (en.empty()) { fputs("DEADLOCK\n", stderr); problem("deadlock"); abort(); }
        // passing a completed barrier is not a choice
        bool bar = true; for (int t = 0; t < n; ++t) if (!F[t].done && F[t].op != opBarrier) bar = false;
        if (bar) {
            VC v{}; for (int t = 0; t < n; ++t) v.join(F[t].vc);
            std::vector<int> w; for (int t = 0; t < n; ++t) if (!F[t].done) w.push_back(t);
            for (int t : w) { F[t].vc = v; ++F[t].vc.c[t]; F[t].op = opNone; }
            for (int t : w) { resume(t); g_internal = true; }
            last = -1;
            continue;
        }
        std::vector<int> en2; for (int t : en) if (F[t].op != opBarrier) en2.push_back(t);
        int t = choose(en2, last);
        if (g_trace) { char b[48]; const char* nm[] = {"start", "chunk", "lock", "atomic", "barrier", ""}; snprintf(b, sizeof b, "%d:%s ", t, nm[F[t].op]); if (g_trace->size() < 4000) *g_trace += b; }
        if (F[t].op == opLock) { auto& L = (*g_locks)[F[t].obj]; L.owner = t; F[t].vc.join(L.vc); }
        last = t;
        resume(t); g_internal = true;
    }
    g_on = false;
    g[0] = e0; g[1] = e1;
    for (int t = 0; t < n; ++t) g_master_vc.join(F[t].vc);   // join edge
    T = 1; cur = 0;
    g_internal = false;
}
void acqLock(const void* k) { if (g_on) yieldOp(opLock, k); }
void relLock(const void* k) {
    if (!g_on) return;
    g_internal = true;
    auto& L = (*g_locks)[k];
    L.vc.join(F[cur].vc); L.owner = -1; ++F[cur].vc.c[cur];
    g_internal = false;
}
bool chunk(long* s, long* e) {
    if (g_on) yieldOp(opChunk, &g_loop);
    Loop& l = g_loop;
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    long st = l.incr * l.chunk, nx = l.next + st;
    if (l.incr > 0 ? nx > l.end : nx < l.end) nx = l.end;
    *e = nx; l.next = nx;
    return true;
}
struct Init {
    Init() {
        g_tab = (Ent*)mmap(nullptr, NB * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_locks = new std::map<const void*, Lock>; g_atomics = new std::map<const void*, VC>; g_trace = new std::string;
        for (int t = 0; t < MAXT; ++t) g_master_vc.c[t] = 1;
    }
};
__attribute__((init_priority(101))) Init g_init;
char kCritical, kAtomic;
} // namespace

namespace sched {
std::string lastTrace() { return *g_trace; }
void setTeam(const Config& c) { g_cfg = c; g_region_no = 0; g_prefix.clear(); g_taken.clear(); g_width.clear(); g_pos = 0; g_used = 0; g_cfg.preemptions = 0; }
Stats explore(const Config& c, long long maxn, const std::function<void(long long)>& body, const std::function<void(const std::string&)>& onproblem) {
    Stats st; g_prefix.clear();
    long long p0 = g_points, a0 = g_accesses;
    for (;;) {
        g_cfg = c; g_region_no = 0; g_pos = 0; g_used = 0; g_taken.clear(); g_width.clear(); g_problem.clear(); g_trace->clear();
        body(st.schedules);
        ++st.schedules;
        st.max_points = std::max(st.max_points, (int)g_taken.size());
        if (!g_problem.empty()) onproblem(g_problem);
        // next schedule (depth first)
        std::vector<int> nx(g_taken);
        while (!nx.empty() && nx.back() + 1 >= g_width[nx.size() - 1]) nx.pop_back();
        if (nx.empty()) break;
        ++nx.back();
        g_prefix = nx;
        if (st.schedules >= maxn) { st.capped = true; break; }
    }
    st.points = g_points - p0; st.accesses = g_accesses - a0;
    setTeam(c);
    return st;
}
}

// ---------- random source: deterministic
unsigned int std::random_device::_M_getval() { return (unsigned)g_cfg.random_seed; }

// ---------- allocation
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (g_on && !g_internal) { bool i = g_internal; g_internal = true; clearRange(p, n); g_internal = i; } return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

extern "C" {
// ---------- OpenMP runtime
int omp_get_num_threads() { return g_on ? T : 1; }
int omp_get_max_threads() { return g_on ? T : teamSize(0); }
int omp_get_thread_num() { return g_on ? cur : 0; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return g_on; }
int omp_get_level() { return g_on; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { g_cfg.team = {n}; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { runTeam(fn, d, teamSize((int)n)); }
static void ploop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) { g_loop = {s, e, i, c > 0 ? c : 1, true}; runTeam(fn, d, teamSize((int)n)); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
// work-sharing loop inside a region: the first thread of the team to arrive initialises it (per loop instance)
static int g_ws_seen[MAXT]; static int g_ws_inst; static std::map<int, Loop>* g_ws;
static bool wsStart(long s, long e, long i, long c, long* is, long* ie) {
    if (!g_on) { g_loop = {s, e, i, c > 0 ? c : 1, true}; return chunk(is, ie); }
    (void)g_ws; (void)g_ws_inst;
    static uint32_t reg = 0; static int inst = 0;
    if (reg != g_region) { reg = g_region; inst = 0; memset(g_ws_seen, 0, sizeof g_ws_seen); }
    int k = ++g_ws_seen[cur];
    if (k > inst) { inst = k; g_loop = {s, e, i, c > 0 ? c : 1, true}; }
    else if (k < inst) { fputs("two unfinished work-sharing loops are not supported\n", stderr); _exit(3); }
    return chunk(is, ie);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, is, ie); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, is, ie); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, is, ie); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, is, ie); }
bool GOMP_loop_dynamic_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_guided_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return chunk(s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long* s, long* e) { return chunk(s, e); }
using ull = unsigned long long;
#define ULL(name) \
    bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return wsStart((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); } \
    bool GOMP_loop_ull_##name##_next(ull* s, ull* e) { return chunk((long*)s, (long*)e); }
ULL(dynamic) ULL(nonmonotonic_dynamic) ULL(guided) ULL(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return wsStart(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return wsStart(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return wsStart(s, e, i, 1, is, ie); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, is, ie); }
bool GOMP_loop_static_next(long* s, long* e) { return chunk(s, e); }
void GOMP_loop_end() { if (g_on) yieldOp(opBarrier, nullptr); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { if (g_on) yieldOp(opBarrier, nullptr); }
bool GOMP_single_start() {
    if (!g_on) return true;
    yieldOp(opChunk, &g_single);
    int k = ++g_single_count[cur];
    if (k > g_single) { g_single = k; return true; }
    return false;
}
void GOMP_critical_start() { acqLock(&kCritical); }
void GOMP_critical_end() { relLock(&kCritical); }
void GOMP_critical_name_start(void** p) { acqLock(p); }
void GOMP_critical_name_end(void** p) { relLock(p); }
void GOMP_atomic_start() { acqLock(&kAtomic); }
void GOMP_atomic_end() { relLock(&kAtomic); }
void omp_init_lock(void** l) { *l = nullptr; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { acqLock(l); }
void omp_unset_lock(void** l) { relLock(l); }

// pthread mutexes used from instrumented code: same treatment as locks
int __wrap_pthread_mutex_lock(void* m) { if (g_on) acqLock(m); return 0; }
int __wrap_pthread_mutex_unlock(void* m) { if (g_on) relLock(m); return 0; }

// ---------- memory accesses
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* a) { acc(a, n, false, PC); } void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { acc(a, n, false, PC); acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { acc(a, n, true, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc(d, n, true, PC); return __real_memset(d, c, n); }
// guards of function-local statics
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (g_on && !r) { g_internal = true; F[cur].vc.join((*g_atomics)[g]); g_internal = false; } return r; }
void __wrap___cxa_guard_release(void* g) { if (g_on) { g_internal = true; (*g_atomics)[g].join(F[cur].vc); ++F[cur].vc.c[cur]; g_internal = false; } __real___cxa_guard_release(g); }

// ---------- atomics
static void aop(const void* a, int mo, bool rd, bool wr, bool yield) {
    if (!g_on || g_internal) return;
    if (yield && g_cfg.yield_atomics) yieldOp(opAtomic, a);
    g_internal = true;
    VC& v = (*g_atomics)[a];
    if (rd && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) F[cur].vc.join(v);
    if (wr && (mo == 3 || mo == 4 || mo == 5)) { if (rd) v.join(F[cur].vc); else v = F[cur].vc; ++F[cur].vc.c[cur]; }
    g_internal = false;
}
#define AT(n, T_) \
    T_ __tsan_atomic##n##_load(const volatile T_* a, int mo) { aop((const void*)a, mo, true, false, (mo != 2 && mo != 0)); return *a; } \
    void __tsan_atomic##n##_store(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, false, true, true); *a = v; } \
    T_ __tsan_atomic##n##_exchange(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = v; return o; } \
    T_ __tsan_atomic##n##_fetch_add(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = (T_)(o + v); return o; } \
    T_ __tsan_atomic##n##_fetch_sub(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = (T_)(o - v); return o; } \
    T_ __tsan_atomic##n##_fetch_and(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = (T_)(o & v); return o; } \
    T_ __tsan_atomic##n##_fetch_or(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = (T_)(o | v); return o; } \
    T_ __tsan_atomic##n##_fetch_xor(volatile T_* a, T_ v, int mo) { aop((const void*)a, mo, true, true, true); T_ o = *a; *a = (T_)(o ^ v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T_* a, T_* e, T_ v, int mo, int) { aop((const void*)a, mo, true, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T_* a, T_* e, T_ v, int mo, int fm) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fm); } \
    T_ __tsan_atomic##n##_compare_exchange_val(volatile T_* a, T_ e, T_ v, int mo, int fm) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fm); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
