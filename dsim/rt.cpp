// dsim runtime. NOT instrumented. Contains: seeded scheduler for real (parked) pthreads, the __tsan_* ABI
// (every memory access / atomic of instrumented code), happens-before race detector, heap checker,
// simulated clock, simulated disk, fault injection, choice recording and replay, run driver.
// Uses no C++ library templates on purpose: COMDAT instances must come from the instrumented objects.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <exception>
#include <new>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "sim.h"

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
}

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define NOINLINE __attribute__((noinline))

// ------------------------------------------------------------------------------------------------
// constants and memory layout
// ------------------------------------------------------------------------------------------------
static const int MAXT = 48;
static const uintptr_t HEAP = 0x200000000000ull;
static const uintptr_t HEAP_SZ = 1ull << 30;
static const uintptr_t STK = HEAP + HEAP_SZ;
static const uintptr_t STK_ONE = 1ull << 20;
static const uintptr_t STK_SZ = STK_ONE * MAXT;
static const uintptr_t ARENA_END = STK + STK_SZ;
static const uintptr_t SH_ARENA = 0x210000000000ull;   // 4 slots * 8 bytes per granule
static const uintptr_t PC_ARENA = 0x220000000000ull;   // 4 * u32 per granule
static const uintptr_t META = 0x230000000000ull;       // 1 byte per heap granule
extern "C" char __executable_start, _end;
static uintptr_t IMG_LO, IMG_HI;
static u64 *SH_IMG;
static u32 *PC_IMG;

struct VC {
    u32 c[MAXT];
};

// ------------------------------------------------------------------------------------------------
// PRNG
// ------------------------------------------------------------------------------------------------
struct Rng {
    u64 s;
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    // geometric gap with mean m
    u64 gap(u64 m) {
        if (m <= 1) return 1;
        u64 g = 1;
        // sum of uniform pieces is enough: uniform in [1, 2m]
        g += below(2 * m);
        return g;
    }
};
static u64 mix(u64 a, u64 b) {
    Rng r{a ^ (b * 0x9E3779B97F4A7C15ull) ^ 0x1234567};
    r.next();
    return r.next();
}

// ------------------------------------------------------------------------------------------------
// result area shared between the zygote and the run (child) process
// ------------------------------------------------------------------------------------------------
enum EvType { EV_SWITCH = 0, EV_STALL = 1, EV_SPUR = 2, EV_CRASH = 3 };
struct SEv {  // schedule/fault event at a step
    u64 step;
    u32 type;
    u32 a;
    u64 b;
};
struct FEv {  // site choice: kind, index within the kind, value
    u32 kind;
    u32 idx;
    u64 val;
};
struct WEv {
    u32 idx;
    u64 val;
    u64 n;
};
static const int MAXKIND = 48;
static const u32 MAX_SEV = 1u << 20, MAX_FEV = 1u << 16, MAX_WEV = 1u << 16;
struct Result {
    volatile int finished;  // body + exit handlers done
    volatile int violation;
    volatile int crashed_by_sim;
    char kind[64];
    char msg[2048];
    char where[4096];
    u64 seed, steps, syncs, switches, hash, sched_hash, races, shared_switches;
    i64 sim_ns;
    int nthreads;
    u32 nsev, nfev, nwev;
    u64 fault_fired[MAXKIND];
    u64 fault_asked[MAXKIND];
    char kinds[MAXKIND][24];
    int nkinds;
    u64 probes[32];
    char probe_names[32][32];
    int nprobes;
    u64 stale_loads, atomics, plain;
    char notes[8192];
    u32 nnotes;
    SEv sev[MAX_SEV];
    FEv fev[MAX_FEV];
    WEv wev[MAX_WEV];
    char log[1 << 20];
    u32 nlog;
};
static Result *R;

// ------------------------------------------------------------------------------------------------
// threads
// ------------------------------------------------------------------------------------------------
enum St { FREE, RUN, BLOCKED, DONE };
enum Wk { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_SLEEP, W_GUARD, W_RD, W_WR };
static const char *wk_name[] = {"-", "mutex", "condvar", "futex", "join", "once", "sleep", "guard", "rdlock", "wrlock"};

struct Thr {
    int id;
    St st;
    Wk wk;
    void *waddr;
    bool timed, timed_out, woken;
    i64 deadline;
    u64 spur_at;
    u64 stall_until;
    u64 last_run;   // step at which it last got the baton
    volatile u32 sem;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    bool detached, joined, started;
    VC vc;
    VC acq_pend;  // relaxed loads since
    VC rel_fence; // clock at last release fence
    VC view;      // weak mode: what must be visible
    u32 prio;
    uintptr_t stk_lo, stk_hi;
    u32 frames[256];
    int nframes;
    int ent_stream;
    u64 ent_idx;
    u64 stale_run;
    int alloc_armed;
};
static Thr T[MAXT];
static int NT;
static __thread Thr *self;
static Thr *cur;
static bool g_on;      // simulation active (child, in scenario)
static bool g_in_rt;
static int g_quiet;
static sim::Opt O;

static u64 g_step, g_sync;
static u64 g_next;  // next step at which the slow path must run
static i64 g_mono0 = 1000000000ll, g_mono_extra, g_wall_off = 1700000000ll * 1000000000ll;
static const i64 NS_PER_STEP = 20;
static u64 g_budget_end, g_fair_from;

struct Enter {
    bool p;
    Enter() : p(g_in_rt) { g_in_rt = true; }
    ~Enter() { g_in_rt = p; }
};
#define ACTIVE (g_on && !g_in_rt && self)

// ------------------------------------------------------------------------------------------------
// real functions
// ------------------------------------------------------------------------------------------------
template <class F>
static F realfn(F &slot, const char *name) {
    if (!slot) slot = (F)dlsym(RTLD_NEXT, name);
    return slot;
}
#define REAL(name) realfn(real_##name, #name)
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static time_t (*real_time)(time_t *);
static int (*real_gettimeofday)(struct timeval *, void *);
static FILE *(*real_fopen)(const char *, const char *);
static FILE *(*real_fopen64)(const char *, const char *);
static int (*real_fclose)(FILE *);
static int (*real_fflush)(FILE *);
static int (*real_fileno)(FILE *);
static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static ssize_t (*real_writev)(int, const struct iovec *, int);
static off64_t (*real_lseek64)(int, off64_t, int);
static int (*real_fstat64)(int, struct stat64 *);
static int (*real_ioctl)(int, unsigned long, ...);
static int (*real_poll)(struct pollfd *, nfds_t, int);
static int (*real_nanosleep)(const struct timespec *, struct timespec *);
static int (*real_sched_yield)();

// ------------------------------------------------------------------------------------------------
// output helpers
// ------------------------------------------------------------------------------------------------
static void raw_out(int fd, const char *s, size_t n) {
    while (n) {
        ssize_t k = syscall(SYS_write, fd, s, n);
        if (k <= 0) return;
        s += k;
        n -= k;
    }
}
static void die(const char *fmt, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    raw_out(2, "dsim: ", 6);
    raw_out(2, b, n);
    raw_out(2, "\n", 1);
    syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------
// event log (optional) and hashing
// ------------------------------------------------------------------------------------------------
static bool g_log_on;
static void hash_in(u64 v) { R->hash = (R->hash ^ v) * 0x100000001b3ull + (v >> 29); }
static void slog(const char *fmt, ...) {
    if (!g_log_on || !R) return;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof R->log - R->nlog;
    if (room > 300) {
        int n = vsnprintf(R->log + R->nlog, room, fmt, ap);
        if (n > 0) R->nlog += n < (int)room ? n : (int)room - 1;
    }
    va_end(ap);
}
// scheduling-relevant event: contributes to the determinism hash and to the interleaving hash
static void mark(int kind, u64 obj) {
    hash_in(((u64)kind << 56) ^ ((u64)(cur ? cur->id : 0) << 48) ^ obj ^ (g_step << 8));
    R->sched_hash = (R->sched_hash ^ (((u64)kind << 8) | (cur ? cur->id : 0)) ^ (obj << 13)) * 0x100000001b3ull;
}

// ------------------------------------------------------------------------------------------------
// violations
// ------------------------------------------------------------------------------------------------
static void finish_child(int code) {
    R->steps = g_step;
    R->syncs = g_sync;
    R->nthreads = NT;
    R->sim_ns = (i64)(g_step * NS_PER_STEP) + g_mono_extra;
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
static size_t app(char *b, size_t pos, size_t cap, const char *fmt, ...) {
    if (pos >= cap) return pos;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b + pos, cap - pos, fmt, ap);
    va_end(ap);
    return pos + (n > 0 ? n : 0);
}
static void dump_threads() {
    size_t p = 0, cap = sizeof R->where;
    for (int i = 0; i < NT; ++i) {
        Thr &t = T[i];
        p = app(R->where, p, cap, "T%d%s %s", i, cur == &t ? "*" : "",
                t.st == RUN ? "runnable" : t.st == BLOCKED ? wk_name[t.wk] : t.st == DONE ? "done" : "free");
        int n = t.nframes < 256 ? t.nframes : 255;
        for (int k = n - 1, m = 0; k >= 0 && m < 8; --k, ++m) p = app(R->where, p, cap, " %x", t.frames[k]);
        p = app(R->where, p, cap, "\n");
    }
}
struct FreshBuf {  // result of a reference run in a forked copy of the process (sim::fresh)
    size_t n, cap;
    volatile int done;
    char why[400];
    char data[];
};
static FreshBuf *g_fresh;
static void violationv(const char *kind, const char *fmt, va_list ap) {
    g_in_rt = true;
    if (g_fresh) {
        int k = snprintf(g_fresh->why, sizeof g_fresh->why, "%s: ", kind);
        vsnprintf(g_fresh->why + k, sizeof g_fresh->why - k, fmt, ap);
        syscall(SYS_exit_group, 0);
    }
    if (!R->violation) {
        R->violation = 1;
        snprintf(R->kind, sizeof R->kind, "%s", kind);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        dump_threads();
        hash_in(0xdead);
    }
    finish_child(0);
}
static void violation(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    violationv(kind, fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------
// choices
// ------------------------------------------------------------------------------------------------
static bool g_replay;
static Rng rW, rS, rF, rP;
struct ReplaySet {
    SEv *sev;
    u32 nsev, isev;
    FEv *fev;
    u32 nfev;
    WEv *wev;
    u32 nwev;
};
static ReplaySet RP;
static u32 g_widx;
static u32 g_kidx[MAXKIND];
static u32 g_kind_rate[MAXKIND];
static bool g_fault_allowed = true, g_fs_faults = true;

static char (*rk_names)[24];  // fault kinds named in the replay file
static int rk_n;
static int rk_map[MAXKIND];  // kind of this run -> kind in the replay file
static int kind_id(const char *k) {
    for (int i = 0; i < R->nkinds; ++i)
        if (!strcmp(R->kinds[i], k)) return i;
    if (R->nkinds == MAXKIND) die("too many fault kinds");
    int i = R->nkinds++;
    snprintf(R->kinds[i], sizeof R->kinds[i], "%s", k);
    rk_map[i] = -1;
    for (int j = 0; j < rk_n; ++j)
        if (!strcmp(rk_names[j], R->kinds[i])) rk_map[i] = j;
    // swarm: each kind is switched off in some runs
    g_kind_rate[i] = (mix(R->seed, 0x5157 + i) % 4 != 0) ? (1u << (mix(R->seed, 0x777 + i) % 3)) : 0;
    return i;
}
static void rec_sev(u32 type, u32 a, u64 b) {
    if (R->nsev < MAX_SEV) R->sev[R->nsev++] = SEv{g_step, type, a, b};
}
static u64 do_fault(const char *kind, u64 n, unsigned rate) {
    if (!g_on || n < 2) return 0;
    int k = kind_id(kind);
    u32 idx = g_kidx[k]++;
    R->fault_asked[k]++;
    u64 v = 0;
    if (g_replay) {
        for (u32 i = 0; i < RP.nfev; ++i)
            if ((int)RP.fev[i].kind == rk_map[k] && RP.fev[i].idx == idx) v = RP.fev[i].val % n;
    } else if (!g_quiet && g_fault_allowed && g_step < g_fair_from && g_kind_rate[k]) {
        if (rF.below(1000) < (u64)rate * g_kind_rate[k] / 2) v = 1 + rF.below(n - 1);
    }
    if (v) {
        if (R->nfev < MAX_FEV) R->fev[R->nfev++] = FEv{(u32)k, idx, v};
        R->fault_fired[k]++;
        hash_in(0xfau ^ (k << 8) ^ (v << 16) ^ ((u64)idx << 32));
        slog("%llu T%d fault %s #%u = %llu\n", (unsigned long long)g_step, cur ? cur->id : -1, kind, idx, (unsigned long long)v);
    }
    return v;
}

// ------------------------------------------------------------------------------------------------
// strategies
// ------------------------------------------------------------------------------------------------
enum Strat { S_RANDOM, S_PCT, S_BURST };
static Strat g_strat;
static u64 g_mean_plain, g_mean_sync;  // mean gaps between switches
static u64 g_sw_plain, g_sw_sync;      // next switch at these counts
static u64 g_pct_points[16];
static int g_npct;
static u32 g_pct_low;
static u64 g_stall_at, g_quantum = 20000;
static u64 g_crash_at = ~0ull;
// ambush: every thread that arrives at a chosen operation (place in the program and object) is held there
static u64 g_amb_salt, g_amb_mask, g_amb_len;
static int g_amb_left;
static bool g_amb_now;

static void strat_init() {
    u64 k = rS.below(100);
    g_strat = k < 43 ? S_RANDOM : k < 85 ? S_PCT : S_BURST;
    bool ambush = rS.below(5) == 4;
    static const u64 ms[] = {1, 2, 3, 5, 9, 17, 40, 120};
    static const u64 mp[] = {4, 12, 40, 150, 600, 3000, 20000, 200000};
    g_mean_sync = ms[rS.below(8)];
    g_mean_plain = mp[rS.below(8)];
    if (g_strat == S_BURST) g_mean_plain = mp[3 + rS.below(4)], g_mean_sync = ms[4 + rS.below(4)];
    g_npct = 0;
    if (g_strat == S_PCT) {
        g_npct = 1 + rS.below(6);
        u64 span = 1ull << (7 + rS.below(10));  // sync points in which the change points fall
        for (int i = 0; i < g_npct; ++i) g_pct_points[i] = 1 + rS.below(span);
        g_pct_low = 1000;
    }
    g_amb_left = 0;
    g_amb_now = false;
    if (ambush) {
        g_amb_salt = rS.next();
        g_amb_mask = (8ull << rS.below(7)) - 1;
        g_amb_len = 1ull << (8 + rS.below(8));
        g_amb_left = 1 + rS.below(24);
    }
    g_sw_plain = rS.gap(g_mean_plain);
    g_sw_sync = rS.gap(g_mean_sync);
    g_stall_at = rS.below(3) ? ~0ull : 1 + rS.below(1ull << (8 + rS.below(9)));
    g_crash_at = ~0ull;
}
static void compute_next();

// ------------------------------------------------------------------------------------------------
// clock
// ------------------------------------------------------------------------------------------------
static i64 mono_now() { return g_mono0 + (i64)(g_step * NS_PER_STEP) + g_mono_extra; }
static i64 wall_now() { return mono_now() + g_wall_off; }

// ------------------------------------------------------------------------------------------------
// vector clocks
// ------------------------------------------------------------------------------------------------
static inline void vc_join(VC &a, const VC &b) {
    for (int i = 0; i < NT; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
struct Store {
    u64 val;
    int tid;
    u32 clk;
    VC rel;
    bool sc;
};
static const int HIST = 6;
struct SyncVar {
    void *addr;
    VC rel;
    // mutex state
    Thr *owner;
    u32 count;
    u32 readers;
    u32 ord;  // order of first use: stable object name
    int once;
    // weak memory history
    Store *h;
    u32 nh;       // total number of stores
    u32 *seen;    // per thread: newest store index seen
    u64 last_val;
};
static const u32 SV_CAP = 1u << 17;
static SyncVar **SV;
static u32 sv_count, sv_ord;
static u32 sv_hash(void *a) { return (u32)(((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 40) & (SV_CAP - 1); }
static SyncVar *sv_tomb = (SyncVar *)1;
static SyncVar *sv_find(void *a) {
    u32 i = sv_hash(a);
    while (SV[i]) {
        if (SV[i] != sv_tomb && SV[i]->addr == a) return SV[i];
        i = (i + 1) & (SV_CAP - 1);
    }
    return nullptr;
}
static SyncVar *sv_get(void *a) {
    u32 i = sv_hash(a);
    int tomb = -1;
    while (SV[i]) {
        if (SV[i] == sv_tomb) {
            if (tomb < 0) tomb = i;
        } else if (SV[i]->addr == a)
            return SV[i];
        i = (i + 1) & (SV_CAP - 1);
    }
    if (tomb >= 0) i = tomb;
    if (++sv_count > SV_CAP * 3 / 4) die("too many sync objects");
    SyncVar *s = (SyncVar *)__real_calloc(1, sizeof(SyncVar));
    s->addr = a;
    s->ord = ++sv_ord;
    SV[i] = s;
    uintptr_t x = (uintptr_t)a;
    if (x >= HEAP && x < HEAP + HEAP_SZ) ((u8 *)META)[(x - HEAP) >> 3] |= 0x80;
    return s;
}
static void sv_drop(void *a) {
    u32 i = sv_hash(a);
    while (SV[i]) {
        if (SV[i] != sv_tomb && SV[i]->addr == a) {
            if (SV[i]->h) __real_free(SV[i]->h);
            if (SV[i]->seen) __real_free(SV[i]->seen);
            __real_free(SV[i]);
            SV[i] = sv_tomb;
            --sv_count;
            return;
        }
        i = (i + 1) & (SV_CAP - 1);
    }
}

// ------------------------------------------------------------------------------------------------
// scheduler core
// ------------------------------------------------------------------------------------------------
static void sem_wait_(Thr *t) {
    while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, &t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE);
}
static void sem_post_(Thr *t) {
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void give(Thr *n) {
    cur = n;
    n->last_run = g_step;
    sem_post_(n);
}
static void switch_to(Thr *n) {
    Thr *me = self;
    if (n == me) return;
    R->switches++;
    mark(1, n->id);
    slog("%llu T%d -> T%d\n", (unsigned long long)g_step, me->id, n->id);
    give(n);
    sem_wait_(me);
    g_in_rt = true;
}
static void make_runnable(Thr *t) {
    t->st = RUN;
    t->wk = W_NONE;
    t->waddr = nullptr;
    t->timed = false;
    t->spur_at = ~0ull;
}
static bool can_run(Thr &t) { return t.st == RUN && t.stall_until <= g_step; }

static void due_events() {
    for (int i = 0; i < NT; ++i) {
        Thr &t = T[i];
        if (t.st == BLOCKED && t.spur_at <= g_step) {
            slog("%llu T%d spurious wake-up\n", (unsigned long long)g_step, i);
            make_runnable(&t);
        } else if (t.st == BLOCKED && t.timed && t.deadline <= mono_now()) {
            t.timed_out = true;
            make_runnable(&t);
        }
    }
}

static void on_deadlock() {
    violation("deadlock", "no thread can make progress: every thread waits forever");
}

// choose the next thread. forced: the current one cannot continue (blocked/done). yielding: prefers others.
static Thr *pick_next(bool forced, bool yielding) {
    for (;;) {
        due_events();
        int run[MAXT], n = 0;
        for (int i = 0; i < NT; ++i)
            if (can_run(T[i])) run[n++] = i;
        if (!n) {
            // stalled threads first
            Thr *st = nullptr;
            for (int i = 0; i < NT; ++i)
                if (T[i].st == RUN && (!st || T[i].stall_until < st->stall_until)) st = &T[i];
            if (st) {
                st->stall_until = 0;
                continue;
            }
            Thr *tw = nullptr;
            for (int i = 0; i < NT; ++i)
                if (T[i].st == BLOCKED && T[i].timed && (!tw || T[i].deadline < tw->deadline)) tw = &T[i];
            if (tw) {
                if (tw->deadline > mono_now()) g_mono_extra += tw->deadline - mono_now();
                continue;
            }
            // A pending spurious wake-up must never be what rescues a system: report the deadlock.
            on_deadlock();
        }
        // deterministic default
        Thr *def = nullptr;
        bool curok = !forced && cur->st == RUN && cur->stall_until <= g_step;
        if (curok && !yielding)
            def = cur;
        else {
            for (int k = 1; k <= NT; ++k) {
                int i = (cur->id + k) % NT;
                if (can_run(T[i])) {
                    def = &T[i];
                    break;
                }
            }
        }
        Thr *got = def;
        if (g_replay) {
            while (RP.isev < RP.nsev && RP.sev[RP.isev].step < g_step) RP.isev++;
            for (u32 j = RP.isev; j < RP.nsev && RP.sev[j].step == g_step; ++j)
                if (RP.sev[j].type == EV_SWITCH && RP.sev[j].a < (u32)NT && can_run(T[RP.sev[j].a])) got = &T[RP.sev[j].a];
        } else if (!g_quiet && O.preempt && n > 1) {
            if (g_step >= g_fair_from) {
                // fair: least recently run
                if (forced || yielding || true) {
                    Thr *best = nullptr;
                    for (int k = 0; k < n; ++k)
                        if (!best || T[run[k]].last_run < best->last_run) best = &T[run[k]];
                    if (forced || yielding) got = best;
                }
            } else if (g_strat == S_PCT) {
                Thr *best = nullptr;
                for (int k = 0; k < n; ++k) {
                    Thr *t = &T[run[k]];
                    if (yielding && t == cur) continue;
                    if (!best || t->prio > best->prio) best = t;
                }
                if (best) got = best;
            } else {
                int k = rS.below(n);
                if (yielding && &T[run[k]] == cur) k = (k + 1) % n;
                got = &T[run[k]];
            }
        }
        if (got != def) rec_sev(EV_SWITCH, got->id, 0);
        return got;
    }
}

static void reschedule(bool forced, bool yielding) {
    Thr *n = pick_next(forced, yielding);
    switch_to(n);
}
static void compute_next() {
    u64 nx = g_budget_end;
    for (int i = 0; i < NT; ++i) {
        if (T[i].st == BLOCKED && T[i].spur_at < nx) nx = T[i].spur_at;
        if (T[i].st == BLOCKED && T[i].timed) {
            i64 d = T[i].deadline - mono_now();
            u64 s = g_step + (d > 0 ? (u64)(d / NS_PER_STEP) + 1 : 1);
            if (s < nx) nx = s;
        }
    }
    if (!g_quiet) {
        u64 q = cur ? cur->last_run + g_quantum : g_step + g_quantum;
        if (q <= g_step) q = g_step + 1;
        if (q < nx) nx = q;
    }
    if (g_replay) {
        while (RP.isev < RP.nsev && RP.sev[RP.isev].step < g_step) RP.isev++;
        for (u32 j = RP.isev; j < RP.nsev; ++j)
            if (RP.sev[j].step > g_step) {
                if (RP.sev[j].step < nx) nx = RP.sev[j].step;
                break;
            }
    } else if (!g_quiet && O.preempt) {
        if (g_step < g_fair_from) {
            if (g_sw_plain > g_step && g_sw_plain < nx) nx = g_sw_plain;
            if (g_stall_at > g_step && g_stall_at < nx) nx = g_stall_at;
            if (g_crash_at > g_step && g_crash_at < nx) nx = g_crash_at;
            if (g_fair_from < nx) nx = g_fair_from;
        } else if (g_step + 300 < nx)
            nx = g_step + 300;
    }
    g_next = nx > g_step ? nx : g_step + 1;
}

static void (*g_exit_fn)();
static void (*g_crash_fn)();
static void do_crash() {
    R->crashed_by_sim = 1;
    slog("%llu CRASH\n", (unsigned long long)g_step);
    hash_in(0xc4a5);
    g_quiet++;
    g_fs_faults = false;
    void (*f)() = g_crash_fn;
    g_crash_fn = nullptr;
    O.crash = false;
    bool on = g_in_rt;
    g_in_rt = false;
    g_on = true;
    // other threads never run again; the oracle must not block
    if (f) f();
    g_in_rt = on;
    R->finished = 1;
    finish_child(0);
}

// slow path at a scheduling point
static NOINLINE void slow_point() {
    if (g_step >= g_budget_end) {
        violation("no-progress", "not finished after %llu simulated steps (fair scheduling and no faults for the last %llu)",
                  (unsigned long long)g_step, (unsigned long long)(g_budget_end - g_fair_from));
    }
    due_events();
    bool sw = false, yield = false;
    if (g_replay) {
        while (RP.isev < RP.nsev && RP.sev[RP.isev].step < g_step) RP.isev++;
        for (u32 j = RP.isev; j < RP.nsev && RP.sev[j].step == g_step; ++j) {
            SEv &e = RP.sev[j];
            if (e.type == EV_SWITCH) sw = true;
            if (e.type == EV_STALL && e.a < (u32)NT) {
                T[e.a].stall_until = g_step + e.b;
                rec_sev(EV_STALL, e.a, e.b);
                R->fault_fired[kind_id("stall")]++;
                hash_in(0x57a11 + e.a);
                if (cur == &T[e.a]) sw = true;
            }
            if (e.type == EV_CRASH && g_crash_fn) {
                rec_sev(EV_CRASH, 0, 0);
                R->fault_fired[kind_id("crash")]++;
                do_crash();
            }
        }
    } else if (!g_quiet && O.preempt) {
        if (g_step < g_fair_from) {
            if (g_step >= g_sw_plain) {
                sw = g_strat != S_PCT;
                g_sw_plain = g_step + rS.gap(g_mean_plain);
            }
            if (g_step >= g_stall_at) {
                g_stall_at = g_step + 1 + rS.below(1ull << (10 + rS.below(8)));
                if (O.stalls && NT > 1) {
                    u32 a = rS.below(NT);
                    u64 len = 1ull << (6 + rS.below(9));
                    if (T[a].st == RUN || T[a].st == BLOCKED) {
                        T[a].stall_until = g_step + len;
                        rec_sev(EV_STALL, a, len);
                        R->fault_fired[kind_id("stall")]++;
                        hash_in(0x57a11 + a);
                        if (cur == &T[a]) sw = true;
                    }
                }
            }
            if (g_amb_now) {
                cur->stall_until = g_step + g_amb_len;
                rec_sev(EV_STALL, cur->id, g_amb_len);
                R->fault_fired[kind_id("stall")]++;
                hash_in(0x57a11 + cur->id);
                sw = true;
            }
            if (g_step >= g_crash_at && g_crash_fn) {
                rec_sev(EV_CRASH, 0, 0);
                R->fault_fired[kind_id("crash")]++;
                do_crash();
            }
        } else {
            sw = yield = true;  // fair phase
        }
    }
    // quantum (part of the deterministic default)
    if (!g_quiet && g_step >= cur->last_run + g_quantum) {
        cur->last_run = g_step;
        if (!g_replay && g_strat == S_PCT) cur->prio = --g_pct_low;
        sw = yield = true;
    }
    if (sw) reschedule(false, yield);
    compute_next();
}

static inline void plain_point() {
    if (likely(++g_step < g_next)) return;
    slow_point();
}
// scheduling point at a synchronisation operation: two steps, so that the operation's own decision has a
// step number of its own and replay can look it up.
static bool replay_wants_switch() {
    while (RP.isev < RP.nsev && RP.sev[RP.isev].step < g_step) RP.isev++;
    for (u32 j = RP.isev; j < RP.nsev && RP.sev[j].step == g_step; ++j)
        if (RP.sev[j].type == EV_SWITCH) return true;
    return false;
}
static bool ambushed(int kind, u64 obj) {
    if (g_replay || g_quiet || !O.preempt || !O.stalls || NT < 2 || g_step >= g_fair_from) return false;
    int n = cur->nframes;
    u64 pc = n > 0 && n <= 256 ? cur->frames[n - 1] : 0;
    if (pc < IMG_LO || pc >= IMG_HI) pc = 0;  // called from a shared library, whose place differs between processes
    u64 h = pc * 0x9e3779b97f4a7c15ull + (u64)kind * 0xc2b2ae3d27d4eb4full + obj;
    h = (h ^ g_amb_salt) * 0xff51afd7ed558ccdull;
    return ((h >> 33) & g_amb_mask) == 0;
}
static void sync_point(int kind, u64 obj) {
    ++g_step;
    ++g_sync;
    mark(kind, obj);
    if (g_amb_left > 0 && ambushed(kind, obj)) {
        --g_amb_left;
        g_amb_now = true;
        slow_point();
        g_amb_now = false;
    } else if (g_step >= g_next)
        slow_point();
    ++g_step;
    bool sw = false;
    if (g_replay) {
        sw = replay_wants_switch();
    } else if (!g_quiet && O.preempt && g_step < g_fair_from) {
        if (g_strat == S_PCT) {
            for (int i = 0; i < g_npct; ++i)
                if (g_pct_points[i] == g_sync) cur->prio = --g_pct_low;
            for (int i = 0; i < NT; ++i)
                if (T[i].st == RUN && T[i].prio > cur->prio && T[i].stall_until <= g_step) sw = true;
        } else if (g_sync >= g_sw_sync) {
            g_sw_sync = g_sync + rS.gap(g_mean_sync);
            sw = true;
        }
    }
    if (sw) {
        reschedule(false, false);
        compute_next();
    } else if (g_next <= g_step) {
        g_next = g_step + 1;  // something became due at this very step: handled at the next one
    }
}
static void yield_point(int kind) {
    ++g_step;
    ++g_sync;
    mark(kind, 0);
    if (g_step >= g_next) slow_point();
    ++g_step;
    if (!g_replay && !g_quiet && g_strat == S_PCT) cur->prio = --g_pct_low;
    reschedule(false, true);
    compute_next();
}
// block the current thread; returns when it is runnable again and has the baton
static void block_on(Wk k, void *a, bool timed = false, i64 deadline = 0) {
    Thr *t = self;
    ++g_step;
    t->st = BLOCKED;
    t->wk = k;
    t->waddr = a;
    t->timed = timed;
    t->timed_out = false;
    t->woken = false;
    t->deadline = deadline;
    reschedule(true, false);
    compute_next();
}
static void wake_all(Wk k, void *a) {
    for (int i = 0; i < NT; ++i)
        if (T[i].st == BLOCKED && T[i].wk == k && T[i].waddr == a) make_runnable(&T[i]);
}

// ------------------------------------------------------------------------------------------------
// race detector and heap checker
// ------------------------------------------------------------------------------------------------
// slot: clk(32) | tid(6) | mask(8) | write | atomic
static inline u64 mk_slot(u32 clk, int tid, u32 mask, bool w, bool at) {
    return (u64)clk | ((u64)tid << 32) | ((u64)mask << 40) | ((u64)w << 48) | ((u64)at << 49) | (1ull << 50);
}
static NOINLINE void heap_error(uintptr_t a, unsigned sz, bool w, uintptr_t pc, u8 m) {
    violation(m == 2 ? "use-after-free" : m == 3 ? "heap-overflow" : "wild-access", "%s of %u bytes at heap offset %lx, pc %lx", w ? "write" : "read", sz,
              (unsigned long)(a - HEAP), (unsigned long)pc);
}
static NOINLINE void race(uintptr_t a, unsigned sz, bool w, bool at, uintptr_t pc, u64 old, u32 oldpc) {
    R->races++;
    if (!O.races || g_quiet) return;
    violation("data-race", "%s%s of %u bytes by T%d at pc %lx conflicts with unsynchronised %s%s by T%d at pc %x", at ? "atomic " : "",
              w ? "write" : "read", sz, self->id, (unsigned long)pc, (old >> 49) & 1 ? "atomic " : "", (old >> 48) & 1 ? "write" : "read",
              (int)((old >> 32) & 63), oldpc);
}
static inline void access_granule(u64 *sh, u32 *pcs, uintptr_t a, unsigned mask, unsigned sz, bool w, bool at, uintptr_t pc) {
    Thr *me = self;
    int empty = -1, same = -1;
    for (int i = 0; i < 4; ++i) {
        u64 s = sh[i];
        if (!s) {
            if (empty < 0) empty = i;
            continue;
        }
        u32 m = (s >> 40) & 0xff;
        if (!(m & mask)) continue;
        int t = (s >> 32) & 63;
        bool sw = (s >> 48) & 1, sa = (s >> 49) & 1;
        if (t == me->id) {
            if (m == mask && (w || !sw) && (!at || sa)) same = i;  // new one is at least as strong
            continue;
        }
        if (!(w || sw) || (at && sa)) continue;
        if (me->vc.c[t] < (u32)s) {
            race(a, sz, w, at, pc, s, pcs[i]);
            continue;
        }
        if (w && m == mask) same = i;  // ordered before us and overwritten
    }
    int k = same >= 0 ? same : empty >= 0 ? empty : (int)((g_step ^ (a >> 3)) & 3);
    sh[k] = mk_slot(me->vc.c[me->id], me->id, mask, w, at);
    pcs[k] = (u32)pc;
}
static inline void access(uintptr_t a, unsigned sz, bool w, bool at, uintptr_t pc) {
    uintptr_t end = a + sz;
    while (a < end) {
        uintptr_t g = a & ~7ull;
        unsigned lo = a - g, hi = end - g < 8 ? end - g : 8;
        unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
        if (a >= HEAP && a < ARENA_END) {
            uintptr_t gi = (g - HEAP) >> 3;
            if (a < STK) {
                u8 m = ((u8 *)META)[gi] & 0x7f;
                if (unlikely(m != 1)) heap_error(a, sz, w, pc, m);
            }
            access_granule((u64 *)SH_ARENA + gi * 4, (u32 *)PC_ARENA + gi * 4, a, mask, hi - lo, w, at, pc);
        } else if (a >= IMG_LO && a < IMG_HI) {
            uintptr_t gi = (g - IMG_LO) >> 3;
            access_granule(SH_IMG + gi * 4, PC_IMG + gi * 4, a, mask, hi - lo, w, at, pc);
        } else
            return;  // libc data, vtables of shared objects...
        a = g + 8;
    }
}
static void shadow_clear(uintptr_t a, size_t n) {
    uintptr_t lo = (a - HEAP) >> 3, hi = (a + n - HEAP + 7) >> 3;
    __real_memset((u64 *)SH_ARENA + lo * 4, 0, (hi - lo) * 32);
}
static void check_obj(void *p, const char *what) {
    uintptr_t a = (uintptr_t)p;
    if (a >= HEAP && a < STK) {
        u8 m = ((u8 *)META)[(a - HEAP) >> 3] & 0x7f;
        if (m != 1) violation("use-after-free", "%s used after its memory was freed", what);
    }
}

// ---- allocation ----
static uintptr_t heap_top;
static bool arena_ready;
struct Hdr {
    u64 size;
    u64 magic;
};
static const u64 MAGIC = 0xA110CA7EDA110CA7ull;
static const int NCLS = 64;
struct FreeBlk {
    FreeBlk *next;
};
static FreeBlk *quar_head[NCLS], *quar_tail[NCLS];
static u64 quar_bytes, live_count, live_bytes;
static void arena_init() {
    if (arena_ready) return;
    arena_ready = true;
    int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
    size_t gr = (ARENA_END - HEAP) >> 3;
    if (mmap((void *)HEAP, ARENA_END - HEAP, PROT_READ | PROT_WRITE, fl, -1, 0) != (void *)HEAP) die("mmap heap");
    if (mmap((void *)SH_ARENA, gr * 32, PROT_READ | PROT_WRITE, fl, -1, 0) != (void *)SH_ARENA) die("mmap shadow");
    if (mmap((void *)PC_ARENA, gr * 16, PROT_READ | PROT_WRITE, fl, -1, 0) != (void *)PC_ARENA) die("mmap pcs");
    if (mmap((void *)META, HEAP_SZ >> 3, PROT_READ | PROT_WRITE, fl, -1, 0) != (void *)META) die("mmap meta");
    IMG_LO = (uintptr_t)&__executable_start & ~7ull;
    IMG_HI = ((uintptr_t)&_end + 7) & ~7ull;
    size_t ig = (IMG_HI - IMG_LO) >> 3;
    SH_IMG = (u64 *)mmap(0, ig * 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    PC_IMG = (u32 *)mmap(0, ig * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SV = (SyncVar **)mmap(0, SV_CAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    heap_top = HEAP + 4096;
}
static int cls_of(size_t n) {  // size classes for reuse: powers of two with 4 steps
    int c = 0;
    size_t s = 32;
    while (s < n && c < NCLS - 1) {
        s += s >> 2;
        s = (s + 15) & ~15ull;
        ++c;
    }
    return c;
}
static size_t cls_size(int c) {
    size_t s = 32;
    while (c--) {
        s += s >> 2;
        s = (s + 15) & ~15ull;
    }
    return s;
}
static const u64 QUAR_MAX = 48ull << 20;
static void *arena_alloc(size_t n, size_t align) {
    arena_init();
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    size_t need = n + sizeof(Hdr) + 16;  // header + tail redzone
    uintptr_t u = 0;
    int c = cls_of(need);
    size_t cs = cls_size(c);
    if (align == 16 && cs >= need && quar_bytes > QUAR_MAX && quar_head[c]) {
        FreeBlk *b = quar_head[c];
        quar_head[c] = b->next;
        if (!quar_head[c]) quar_tail[c] = nullptr;
        quar_bytes -= cs;
        u = (uintptr_t)b + sizeof(Hdr);
    } else {
        if (cs < need) cs = (need + 15) & ~15ull;
        u = (heap_top + sizeof(Hdr) + align - 1) & ~(align - 1);
        uintptr_t nt = (u - sizeof(Hdr)) + cs;
        if (nt >= HEAP + HEAP_SZ) {
            if (g_on && R) violation("out-of-memory", "simulated heap of %llu MB exhausted (live blocks: %llu)", (unsigned long long)(HEAP_SZ >> 20), (unsigned long long)live_count);
            die("heap exhausted");
        }
        heap_top = (nt + 15) & ~15ull;
    }
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->size = n;
    h->magic = MAGIC;
    uintptr_t lo = (u - HEAP) >> 3, hi = (u + n + 7 - HEAP) >> 3;
    u8 *m = (u8 *)META;
    m[lo - 1] = m[lo - 2] = 3;
    __real_memset(m + lo, 1, hi - lo);
    m[hi] = 3;
    if (g_on) shadow_clear(u, n);
    live_count++;
    live_bytes += n;
    return (void *)u;
}
static bool in_heap(void *p) { return (uintptr_t)p >= HEAP && (uintptr_t)p < STK; }
static void arena_free(void *p, uintptr_t pc) {
    uintptr_t u = (uintptr_t)p;
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    u8 *m = (u8 *)META;
    uintptr_t lo = (u - HEAP) >> 3;
    if ((m[lo] & 0x7f) != 1 || h->magic != MAGIC) {
        if (g_on && R) violation((m[lo] & 0x7f) == 2 ? "double-free" : "bad-free", "free of a block that is not allocated, pc %lx", (unsigned long)pc);
        return;
    }
    size_t n = h->size;
    uintptr_t hi = (u + n + 7 - HEAP) >> 3;
    bool act = g_on && self;
    for (uintptr_t i = lo; i < hi; ++i) {
        if (m[i] & 0x80) sv_drop((void *)(HEAP + (i << 3))), sv_drop((void *)(HEAP + (i << 3) + 1)), sv_drop((void *)(HEAP + (i << 3) + 2)), sv_drop((void *)(HEAP + (i << 3) + 4));
    }
    if (act) {
        for (int i = 0; i < NT; ++i)
            if (T[i].st == BLOCKED && (uintptr_t)T[i].waddr >= u && (uintptr_t)T[i].waddr < u + n && T[i].wk != W_JOIN && T[i].wk != W_SLEEP)
                violation("use-after-free", "memory freed while T%d still waits on a %s in it", i, wk_name[T[i].wk]);
        // a release inside libstdc++ (not instrumented) was ordered by reference counts nobody saw
        bool inside = pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&_end;
        if (inside && (n <= 4096 || O.races))
            for (uintptr_t x = u; x < u + n; x += 8) access(x, u + n - x < 8 ? u + n - x : 8, true, false, pc);
    }
    __real_memset(m + lo, 2, hi - lo);
    h->magic = 0;
    live_count--;
    live_bytes -= n;
    size_t need = n + sizeof(Hdr) + 16;
    int c = cls_of(need);
    if (cls_size(c) >= need && ((u & 4095) || true)) {
        FreeBlk *b = (FreeBlk *)h;
        b->next = nullptr;
        if (quar_tail[c]) quar_tail[c]->next = b;
        else quar_head[c] = b;
        quar_tail[c] = b;
        quar_bytes += cls_size(c);
    }
}
static void *sim_alloc(size_t n, size_t align = 16) {
    Enter e;
    return arena_alloc(n, align);
}
static void sim_free(void *p, uintptr_t pc) {
    if (!p) return;
    if (!in_heap(p)) {
        __real_free(p);
        return;
    }
    Enter e;
    arena_free(p, pc);
}
#define RA ((uintptr_t)__builtin_return_address(0))
// Injected only between sim::alloc_faults(true) and (false) of the calling thread.
static bool alloc_fails() {
    if (!ACTIVE || !O.alloc_fail || !self->alloc_armed) return false;
    if (std::uncaught_exceptions()) return false;  // during unwinding the standard library itself could not go on
    Enter e;
    return do_fault("alloc-fail", 2, 40) != 0;
}
static void *sim_new(size_t n) {
    if (alloc_fails()) throw std::bad_alloc();
    return sim_alloc(n);
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void *operator new(size_t n, std::align_val_t a) { return sim_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { sim_free(p, RA); }
void operator delete[](void *p) noexcept { sim_free(p, RA); }
void operator delete(void *p, size_t) noexcept { sim_free(p, RA); }
void operator delete[](void *p, size_t) noexcept { sim_free(p, RA); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p, RA); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p, RA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free(p, RA); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free(p, RA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p, RA); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p, RA); }

extern "C" {
void *__wrap_malloc(size_t n) { return g_in_rt ? __real_malloc(n) : alloc_fails() ? nullptr : sim_alloc(n); }
void __wrap_free(void *p) {
    if (in_heap(p)) sim_free(p, RA);
    else __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (g_in_rt) return __real_calloc(a, b);
    void *p = sim_alloc(a * b);
    __real_memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (g_in_rt || (q && !in_heap(q))) return __real_realloc(q, n);
    void *p = sim_alloc(n);
    if (q) {
        size_t o = ((Hdr *)((uintptr_t)q - sizeof(Hdr)))->size;
        __real_memcpy(p, q, o < n ? o : n);
        sim_free(q, RA);
    }
    return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return sim_alloc(n, al); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
    *p = sim_alloc(n, al);
    return 0;
}
static inline void range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!n) return;
    Enter e;
    plain_point();
    while (n > 1 << 20) {
        access(a, 1 << 20, w, false, pc);
        a += 1 << 20;
        n -= 1 << 20;
    }
    access(a, n, w, false, pc);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (ACTIVE) {
        range((uintptr_t)s, n, false, RA);
        range((uintptr_t)d, n, true, RA);
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (ACTIVE) {
        range((uintptr_t)s, n, false, RA);
        range((uintptr_t)d, n, true, RA);
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (ACTIVE) range((uintptr_t)d, n, true, RA);
    return __real_memset(d, c, n);
}

// ------------------------------------------------------------------------------------------------
// __tsan_* ABI
// ------------------------------------------------------------------------------------------------
#define ACC(name, sz, w)                                 \
    void name(void *a) {                                 \
        if (!ACTIVE) return;                             \
        Enter e;                                         \
        plain_point();                                   \
        R->plain++;                                      \
        access((uintptr_t)a, sz, w, false, RA);          \
    }
ACC(__tsan_read1, 1, false)
ACC(__tsan_read2, 2, false)
ACC(__tsan_read4, 4, false)
ACC(__tsan_read8, 8, false)
ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true)
ACC(__tsan_write2, 2, true)
ACC(__tsan_write4, 4, true)
ACC(__tsan_write8, 8, true)
ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false)
ACC(__tsan_unaligned_read4, 4, false)
ACC(__tsan_unaligned_read8, 8, false)
ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true)
ACC(__tsan_unaligned_write4, 4, true)
ACC(__tsan_unaligned_write8, 8, true)
ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false)
ACC(__tsan_volatile_read2, 2, false)
ACC(__tsan_volatile_read4, 4, false)
ACC(__tsan_volatile_read8, 8, false)
ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true)
ACC(__tsan_volatile_write2, 2, true)
ACC(__tsan_volatile_write4, 4, true)
ACC(__tsan_volatile_write8, 8, true)
ACC(__tsan_volatile_write16, 16, true)
void __tsan_read_range(void *a, size_t n) {
    if (ACTIVE) range((uintptr_t)a, n, false, RA);
}
void __tsan_write_range(void *a, size_t n) {
    if (ACTIVE) range((uintptr_t)a, n, true, RA);
}
void __tsan_vptr_read(void *a) {
    if (!ACTIVE) return;
    Enter e;
    plain_point();
    access((uintptr_t)a, 8, false, false, RA);
}
void __tsan_vptr_update(void **a, void *v) {
    if (!ACTIVE) return;
    if (*a == v) return;
    Enter e;
    plain_point();
    access((uintptr_t)a, 8, true, false, RA);
}
void __tsan_func_entry(void *pc) {
    Thr *t = self;
    if (!t || !g_on) return;
    if (t->nframes < 256 && t->nframes >= 0) t->frames[t->nframes] = (u32)(uintptr_t)pc;
    t->nframes++;
}
void __tsan_func_exit() {
    Thr *t = self;
    if (!t || !g_on) return;
    if (t->nframes > 0) t->nframes--;
}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

}  // extern "C"
enum { MO_RLX, MO_CONSUME, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static inline bool mo_acq(int m) { return m == MO_ACQ || m == MO_CONSUME || m == MO_ACQREL || m == MO_SC; }
static inline bool mo_rel(int m) { return m == MO_REL || m == MO_ACQREL || m == MO_SC; }
static VC g_scview;

static inline void tick(Thr *t) { t->vc.c[t->id]++; }

static void weak_init(SyncVar *s, u64 cur_val) {
    if (!s->h) {
        s->h = (Store *)__real_calloc(HIST, sizeof(Store));
        s->seen = (u32 *)__real_calloc(MAXT, sizeof(u32));
        s->nh = 0;
    }
    if (s->nh == 0 || s->last_val != cur_val) {
        // initial value, or changed by a non-atomic access: one store visible to everybody
        s->nh = s->nh + HIST;  // invalidate older history
        Store &st = s->h[s->nh % HIST];
        __real_memset(&st, 0, sizeof st);
        for (int i = 0; i < HIST; ++i) s->h[i].tid = -1;
        st.val = cur_val;
        st.tid = -2;
        s->last_val = cur_val;
        for (int i = 0; i < MAXT; ++i) s->seen[i] = s->nh;
        s->nh++;
    }
}
static void weak_push(SyncVar *s, Thr *t, u64 v, bool sc) {
    Store &st = s->h[s->nh % HIST];
    st.val = v;
    st.tid = t->id;
    st.clk = t->vc.c[t->id];
    st.rel = s->rel;
    st.sc = sc;
    s->seen[t->id] = s->nh;
    s->nh++;
    s->last_val = v;
}
// index of the store a load may read: newest unless a stale read is chosen
static u32 weak_pick(SyncVar *s, Thr *t, bool sc) {
    u32 newest = s->nh - 1;
    u32 lo = s->seen[t->id];
    u32 k = newest;
    while (k > lo && newest - k < (u32)HIST - 1) {
        Store &st = s->h[k % HIST];
        if (st.tid < 0) break;
        if (st.tid == t->id || t->vc.c[st.tid] >= st.clk || t->view.c[st.tid] >= st.clk || (sc && st.sc)) break;
        --k;
    }
    if (k == newest || g_quiet || t->stale_run > 8) {
        t->stale_run = 0;
        return newest;
    }
    u64 v = do_fault("stale-load", newest - k + 1, 300);
    if (v) {
        t->stale_run++;
        R->stale_loads++;
    } else
        t->stale_run = 0;
    return newest - (u32)v;
}
static void sc_sync(Thr *t) {  // effect of a seq_cst fence (or stronger) on visibility
    vc_join(t->view, g_scview);
    vc_join(g_scview, t->vc);
    vc_join(g_scview, t->view);
}

template <class V>
static V at_load(const volatile V *p, int mo, uintptr_t pc) {
    if (!ACTIVE) return *p;
    Enter e;
    SyncVar *s = sv_get((void *)p);
    sync_point(2, s->ord);
    s = sv_get((void *)p);
    access((uintptr_t)p, sizeof(V), false, true, pc);
    R->atomics++;
    Thr *t = self;
    V v = *p;
    const VC *rel = &s->rel;
    if (O.weak && sizeof(V) <= 8) {
        weak_init(s, (u64)v);
        if (mo == MO_SC) sc_sync(t);
        u32 k = weak_pick(s, t, mo == MO_SC);
        Store &st = s->h[k % HIST];
        v = (V)st.val;
        if (k != s->nh - 1) rel = &st.rel;
        if (k > s->seen[t->id]) s->seen[t->id] = k;
    }
    if (mo_acq(mo)) vc_join(t->vc, *rel);
    else vc_join(t->acq_pend, *rel);
    return v;
}
template <class V>
static void at_store(volatile V *p, V v, int mo, uintptr_t pc) {
    if (!ACTIVE) {
        *p = v;
        return;
    }
    Enter e;
    SyncVar *s = sv_get((void *)p);
    sync_point(3, s->ord);
    s = sv_get((void *)p);
    access((uintptr_t)p, sizeof(V), true, true, pc);
    R->atomics++;
    Thr *t = self;
    if (O.weak && sizeof(V) <= 8) weak_init(s, (u64)*p);
    if (mo_rel(mo)) s->rel = t->vc;
    else s->rel = t->rel_fence;
    if (O.weak && sizeof(V) <= 8) {
        tick(t);
        if (mo_rel(mo)) s->rel = t->vc;
        weak_push(s, t, (u64)v, mo == MO_SC);
        if (mo == MO_SC) sc_sync(t);
    }
    tick(t);
    *p = v;
}
template <class V, class F>
static V at_rmw(volatile V *p, int mo, uintptr_t pc, F f) {
    if (!ACTIVE) {
        V o = *p;
        *p = f(o);
        return o;
    }
    Enter e;
    SyncVar *s = sv_get((void *)p);
    sync_point(4, s->ord);
    s = sv_get((void *)p);
    access((uintptr_t)p, sizeof(V), true, true, pc);
    R->atomics++;
    Thr *t = self;
    V o = *p;
    if (O.weak && sizeof(V) <= 8) {
        weak_init(s, (u64)o);
        if (mo == MO_SC) sc_sync(t);
    }
    if (mo_acq(mo)) vc_join(t->vc, s->rel);
    else vc_join(t->acq_pend, s->rel);
    if (O.weak) tick(t);
    if (mo_rel(mo)) vc_join(s->rel, t->vc);
    else vc_join(s->rel, t->rel_fence);
    V n = f(o);
    if (O.weak && sizeof(V) <= 8) {
        weak_push(s, t, (u64)n, mo == MO_SC);
        if (mo == MO_SC) sc_sync(t);
    }
    tick(t);
    *p = n;
    return o;
}
template <class V>
static bool at_cas(volatile V *p, V *exp, V des, int mo, int fmo, uintptr_t pc, bool weakcas) {
    if (!ACTIVE) {
        if (*p == *exp) {
            *p = des;
            return true;
        }
        *exp = *p;
        return false;
    }
    Enter e;
    SyncVar *s = sv_get((void *)p);
    sync_point(5, s->ord);
    s = sv_get((void *)p);
    R->atomics++;
    Thr *t = self;
    V o = *p;
    bool ok = o == *exp;
    if (ok && weakcas && do_fault("cas-weak-fail", 2, 30)) ok = false;
    access((uintptr_t)p, sizeof(V), ok, true, pc);
    if (O.weak && sizeof(V) <= 8) {
        weak_init(s, (u64)o);
        if (mo == MO_SC) sc_sync(t);
    }
    if (!ok) {
        if (mo_acq(fmo)) vc_join(t->vc, s->rel);
        else vc_join(t->acq_pend, s->rel);
        if (O.weak && sizeof(V) <= 8) s->seen[t->id] = s->nh - 1;
        *exp = o;
        return false;
    }
    if (mo_acq(mo)) vc_join(t->vc, s->rel);
    else vc_join(t->acq_pend, s->rel);
    if (O.weak) tick(t);
    if (mo_rel(mo)) vc_join(s->rel, t->vc);
    else vc_join(s->rel, t->rel_fence);
    if (O.weak && sizeof(V) <= 8) {
        weak_push(s, t, (u64)des, mo == MO_SC);
        if (mo == MO_SC) sc_sync(t);
    }
    tick(t);
    *p = des;
    return true;
}
extern "C" {
#define ATOMIC(N, V)                                                                                                                     \
    V __tsan_atomic##N##_load(const volatile V *p, int mo) { return at_load<V>(p, mo, RA); }                                             \
    void __tsan_atomic##N##_store(volatile V *p, V v, int mo) { at_store<V>(p, v, mo, RA); }                                             \
    V __tsan_atomic##N##_exchange(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V) { return v; }); }                     \
    V __tsan_atomic##N##_fetch_add(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V)(o + v); }); }         \
    V __tsan_atomic##N##_fetch_sub(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V)(o - v); }); }         \
    V __tsan_atomic##N##_fetch_and(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V)(o & v); }); }         \
    V __tsan_atomic##N##_fetch_or(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V)(o | v); }); }          \
    V __tsan_atomic##N##_fetch_xor(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V)(o ^ v); }); }         \
    V __tsan_atomic##N##_fetch_nand(volatile V *p, V v, int mo) { return at_rmw<V>(p, mo, RA, [v](V o) { return (V) ~(o & v); }); }      \
    int __tsan_atomic##N##_compare_exchange_strong(volatile V *p, V *c, V v, int mo, int fmo) { return at_cas<V>(p, c, v, mo, fmo, RA, false); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile V *p, V *c, V v, int mo, int fmo) { return at_cas<V>(p, c, v, mo, fmo, RA, true); }    \
    V __tsan_atomic##N##_compare_exchange_val(volatile V *p, V c, V v, int mo, int fmo) {                                                \
        at_cas<V>(p, &c, v, mo, fmo, RA, false);                                                                                         \
        return c;                                                                                                                        \
    }
ATOMIC(8, u8)
ATOMIC(16, uint16_t)
ATOMIC(32, u32)
ATOMIC(64, u64)
ATOMIC(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!ACTIVE) return;
    Enter e;
    sync_point(6, mo);
    Thr *t = self;
    if (mo_acq(mo)) vc_join(t->vc, t->acq_pend);
    if (mo_rel(mo)) {
        t->rel_fence = t->vc;
        tick(t);
    }
    if (mo == MO_SC && O.weak) sc_sync(t);
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------
// pthread interposition
// ------------------------------------------------------------------------------------------------
static pthread_key_t exit_key;
static void thread_finished(void *p) {
    Thr *t = (Thr *)p;
    g_in_rt = true;
    ++g_step;
    mark(20, t->id);
    tick(t);
    t->st = DONE;
    wake_all(W_JOIN, t);
    Thr *n = pick_next(true, false);
    R->switches++;
    mark(1, n->id);
    self = nullptr;
    compute_next();
    give(n);
    // from here on this OS thread only unwinds inside libc
}
static void *trampoline(void *p) {
    Thr *t = (Thr *)p;
    self = t;
    sem_wait_(t);
    g_in_rt = true;
    pthread_setspecific(exit_key, t);
    compute_next();
    g_in_rt = false;
    void *r = t->fn(t->arg);
    g_in_rt = true;
    t->ret = r;
    mark(21, t->id);
    g_in_rt = false;
    return r;  // TLS destructors (still simulated), then the key destructor hands the baton on
}
static Thr *thr_alloc() {
    if (NT >= MAXT) violation("too-many-threads", "more than %d threads created in one run", MAXT);
    Thr *t = &T[NT];
    __real_memset(t, 0, sizeof *t);
    t->id = NT;
    t->spur_at = ~0ull;
    t->stk_lo = STK + STK_ONE * NT;
    t->stk_hi = t->stk_lo + STK_ONE;
    t->prio = 2000 + (u32)rS.below(1000000);
    t->ent_stream = 1000 + NT;
    t->last_run = g_step;
    ++NT;
    return t;
}
static int thr_start(Thr *t) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void *)t->stk_lo, STK_ONE);
    int r = REAL(pthread_create)(&t->real, &a, trampoline, t);
    pthread_attr_destroy(&a);
    return r;
}
static Thr *thr_of(pthread_t p) {
    for (int i = 0; i < NT; ++i)
        if (T[i].real == p) return &T[i];
    return nullptr;
}

static const u64 g_never = ~0ull;
static void mutex_acquire(pthread_mutex_t *m, SyncVar *s) {
    Thr *t = self;
    while (s->owner) {
        block_on(W_MUTEX, m);
        s = sv_get(m);
    }
    s->owner = t;
    s->count = 1;
    vc_join(t->vc, s->rel);
}
static void mutex_release(pthread_mutex_t *m, SyncVar *s) {
    Thr *t = self;
    s->rel = t->vc;
    tick(t);
    s->owner = nullptr;
    s->count = 0;
    wake_all(W_MUTEX, m);
}
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!ACTIVE) return 0;
    Enter e;
    check_obj(m, "mutex");
    SyncVar *s = sv_get(m);
    sync_point(10, s->ord);
    check_obj(m, "mutex");
    s = sv_get(m);
    if (s->owner == self) {
        if (is_recursive(m)) {
            s->count++;
            return 0;
        }
        violation("self-deadlock", "thread T%d locks a mutex it already holds", self->id);
    }
    mutex_acquire(m, s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ACTIVE) return 0;
    Enter e;
    check_obj(m, "mutex");
    SyncVar *s = sv_get(m);
    sync_point(11, s->ord);
    s = sv_get(m);
    if (s->owner == self && is_recursive(m)) {
        s->count++;
        return 0;
    }
    if (s->owner) return EBUSY;
    mutex_acquire(m, s);
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
    if (!ACTIVE) return 0;
    i64 d = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) d -= g_wall_off;
    Enter e;
    check_obj(m, "mutex");
    SyncVar *s = sv_get(m);
    sync_point(11, s->ord);
    for (bool waited = false;; waited = true) {
        s = sv_get(m);
        if (s->owner == self && is_recursive(m)) {
            s->count++;
            return 0;
        }
        if (!s->owner) break;
        if (mono_now() >= d || (waited && self->timed_out)) return ETIMEDOUT;
        block_on(W_MUTEX, m, true, d);
    }
    mutex_acquire(m, s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!ACTIVE) return 0;
    Enter e;
    check_obj(m, "mutex");
    SyncVar *s = sv_get(m);
    if (s->owner != self) violation("bad-unlock", "thread T%d unlocks a mutex it does not hold", self->id);
    if (s->count > 1) {
        s->count--;
        return 0;
    }
    mutex_release(m, s);
    sync_point(12, s->ord);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!ACTIVE) return 0;
    Enter e;
    SyncVar *s = sv_find(m);
    if (s && s->owner) violation("destroyed-in-use", "mutex destroyed while locked by T%d", s->owner->id);
    return 0;
}

static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, bool timed, i64 deadline) {
    Enter e;
    check_obj(c, "condition variable");
    SyncVar *sc = sv_get(c);
    SyncVar *s = sv_get(m);
    sync_point(13, sc->ord);
    if (s->owner != self) violation("bad-wait", "wait on a condition variable without holding its mutex");
    mutex_release(m, s);
    Thr *t = self;
    t->spur_at = g_never;
    if (O.spurious) {
        u64 v = do_fault("spurious-wakeup", 6, 60);
        if (v) t->spur_at = g_step + (1ull << (3 * v - 2));
    }
    block_on(W_COND, c, timed, deadline);
    bool to = t->timed_out && !t->woken;
    s = sv_get(m);
    mutex_acquire(m, s);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!ACTIVE) return 0;
    return cond_wait_impl(c, m, false, 0);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
    if (!ACTIVE) return 0;
    i64 d = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) d -= g_wall_off;
    return cond_wait_impl(c, m, true, d);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
static int cond_wake(pthread_cond_t *c, bool all) {
    if (!ACTIVE) return 0;
    Enter e;
    check_obj(c, "condition variable");
    SyncVar *s = sv_get(c);
    sync_point(all ? 15 : 14, s->ord);
    check_obj(c, "condition variable");
    if (all) {
        for (int i = 0; i < NT; ++i)
            if (T[i].st == BLOCKED && T[i].wk == W_COND && T[i].waddr == c) T[i].woken = true;
        wake_all(W_COND, c);
    } else {
        int w[MAXT], n = 0;
        for (int i = 0; i < NT; ++i)
            if (T[i].st == BLOCKED && T[i].wk == W_COND && T[i].waddr == c) w[n++] = i;
        if (n) {
            u64 k = n > 1 ? do_fault("wake-order", n, 500) : 0;
            T[w[k]].woken = true;
            make_runnable(&T[w[k]]);
        }
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, true); }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!ACTIVE) return 0;
    Enter e;
    for (int i = 0; i < NT; ++i)
        if (T[i].st == BLOCKED && T[i].wk == W_COND && T[i].waddr == c)
            violation("destroyed-in-use", "condition variable destroyed while T%d waits on it", i);
    return 0;
}

static int rw_lock(pthread_rwlock_t *l, bool wr, bool tryit) {
    if (!ACTIVE) return 0;
    Enter e;
    check_obj(l, "rwlock");
    SyncVar *s = sv_get(l);
    sync_point(16 + wr, s->ord);
    for (;;) {
        s = sv_get(l);
        bool busy = s->owner || (wr && s->readers);
        if (!busy) break;
        if (tryit) return EBUSY;
        block_on(W_RD, l);
    }
    if (wr) s->owner = self;
    else s->readers++;
    vc_join(self->vc, s->rel);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!ACTIVE) return 0;
    Enter e;
    SyncVar *s = sv_get(l);
    vc_join(s->rel, self->vc);
    tick(self);
    if (s->owner == self) s->owner = nullptr;
    else if (s->readers) s->readers--;
    wake_all(W_RD, l);
    sync_point(18, s->ord);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

int pthread_once(pthread_once_t *o, void (*f)()) {
    volatile int *st = (volatile int *)o;
    if (!ACTIVE) {
        if (*st == 2) return 0;
        *st = 2;
        f();
        return 0;
    }
    SyncVar *s;
    {
        Enter e;
        s = sv_get(o);
        sync_point(19, s->ord);
        for (;;) {
            if (*st == 2) {
                vc_join(self->vc, s->rel);
                return 0;
            }
            if (*st == 0) break;
            block_on(W_ONCE, o);
            s = sv_get(o);
        }
        *st = 1;
    }
    struct Done {
        pthread_once_t *o;
        bool ok;
        ~Done() {
            Enter e;
            SyncVar *s = sv_get(o);
            *(volatile int *)o = ok ? 2 : 0;
            if (self) {
                s->rel = self->vc;
                tick(self);
            }
            wake_all(W_ONCE, o);
        }
    } d{o, false};
    f();
    d.ok = true;
    return 0;
}
// static initialisation guards: byte 0 = done, byte 1 = in progress
// Exception objects are reference counted inside libstdc++: the ordering those counts give is modelled as
// one release/acquire object.
static char g_exc_obj[8];
static void exc_sync() {
    Enter e;
    SyncVar *s = sv_get(g_exc_obj);
    vc_join(self->vc, s->rel);
    vc_join(s->rel, self->vc);
    tick(self);
}
static void (*real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv)(void *);
static void (*real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv)(void *);
static void (*real___cxa_end_catch)();
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *t) {
    if (ACTIVE) exc_sync();
    REAL(_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv)(t);
}
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *t) {
    if (ACTIVE) exc_sync();
    REAL(_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv)(t);
}
void __cxa_end_catch() {
    if (ACTIVE) exc_sync();
    REAL(__cxa_end_catch)();
}
int __cxa_guard_acquire(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    if (b[0]) {
        if (ACTIVE) {
            Enter e;
            vc_join(self->vc, sv_get(g)->rel);
        }
        return 0;
    }
    if (!ACTIVE) {
        b[1] = 1;
        return 1;
    }
    Enter e;
    sync_point(22, sv_get(g)->ord);
    for (;;) {
        if (b[0]) {
            vc_join(self->vc, sv_get(g)->rel);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            vc_join(self->vc, sv_get(g)->rel);  // after an attempt that threw
            return 1;
        }
        block_on(W_GUARD, g);
    }
}
void __cxa_guard_release(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    b[1] = 0;
    b[0] = 1;
    if (!ACTIVE) return;
    Enter e;
    SyncVar *s = sv_get(g);
    vc_join(s->rel, self->vc);
    tick(self);
    wake_all(W_GUARD, g);
}
void __cxa_guard_abort(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    b[1] = 0;
    if (!ACTIVE) return;
    Enter e;
    vc_join(sv_get(g)->rel, self->vc);
    tick(self);
    wake_all(W_GUARD, g);
}

static bool g_thread_faults = true;
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!ACTIVE) {
        if (g_on) die("pthread_create from an unmanaged thread");
        return REAL(pthread_create)(th, attr, fn, arg);
    }
    Enter e;
    sync_point(23, 0);
    if (O.thread_fail && g_thread_faults && do_fault("thread-create-fail", 2, 120)) return EAGAIN;
    Thr *t = thr_alloc();
    t->fn = fn;
    t->arg = arg;
    t->vc = self->vc;
    t->vc.c[t->id] = 1;
    t->view = self->view;
    tick(self);
    t->st = RUN;
    t->started = true;
    if (thr_start(t)) die("pthread_create failed");
    *th = t->real;
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        if (ds == PTHREAD_CREATE_DETACHED) t->detached = true;
    }
    slog("%llu T%d creates T%d\n", (unsigned long long)g_step, self->id, t->id);
    sync_point(24, t->id);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (!ACTIVE) return REAL(pthread_join)(th, ret);
    Enter e;
    Thr *t = thr_of(th);
    if (!t || t->joined || t->detached) violation("bad-join", "join of a thread that is not joinable");
    sync_point(25, t->id);
    if (t == self) return EDEADLK;
    while (t->st != DONE) block_on(W_JOIN, t);
    vc_join(self->vc, t->vc);
    t->joined = true;
    void *r;
    REAL(pthread_join)(th, &r);
    if (ret) *ret = r;
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!ACTIVE) return REAL(pthread_detach)(th);
    Enter e;
    Thr *t = thr_of(th);
    if (t) t->detached = true;
    return 0;
}
int sched_yield() {
    if (!ACTIVE) return 0;
    Enter e;
    yield_point(26);
    return 0;
}
static void do_sleep(i64 ns) {
    Enter e;
    if (ns < 0) ns = 0;
    sync_point(27, 0);
    block_on(W_SLEEP, self, true, mono_now() + ns);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!ACTIVE) return REAL(nanosleep)(a, b);
    do_sleep(a->tv_sec * 1000000000ll + a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *) {
    i64 d = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (!ACTIVE) return 0;
    if (flags & TIMER_ABSTIME) d -= (c == CLOCK_REALTIME ? wall_now() : mono_now());
    do_sleep(d);
    return 0;
}
int usleep(useconds_t us) {
    if (!ACTIVE) return 0;
    do_sleep((i64)us * 1000);
    return 0;
}
static void clock_faults() {
    if (!O.clock) return;
    static const i64 stall[] = {0, 1000, 1000000, 50000000ll, 1000000000ll, 3600ll * 1000000000ll, 86400ll * 1000000000ll};
    u64 v = do_fault("time-stall", 7, 150);
    if (v) g_mono_extra += stall[v];
    static const i64 jump[] = {0, -1, 1, -3600, 3600, -86400 * 400ll, 86400 * 400ll};
    u64 w = do_fault("wall-clock-jump", 7, 150);
    if (w) g_wall_off += jump[w] * 1000000000ll;
}
static i64 read_clock(clockid_t c) {
    Enter e;
    sync_point(28, c);
    clock_faults();
    bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
    return wall ? wall_now() : mono_now();
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!ACTIVE) {
        if (g_on) {
            i64 v = (c == CLOCK_REALTIME) ? wall_now() : mono_now();
            ts->tv_sec = v / 1000000000;
            ts->tv_nsec = v % 1000000000;
            return 0;
        }
        return REAL(clock_gettime)(c, ts);
    }
    i64 v = read_clock(c);
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    return 0;
}
time_t time(time_t *p) {
    time_t v;
    if (ACTIVE) v = read_clock(CLOCK_REALTIME) / 1000000000;
    else if (g_on) v = wall_now() / 1000000000;
    else v = REAL(time)(nullptr);
    if (p) *p = v;
    return v;
}
// The C library's one broken-down time, shared by all threads.
static struct tm g_tm;
struct tm *localtime(time_t const *t) {
    if (ACTIVE) range((uintptr_t)&g_tm, sizeof g_tm, true, RA);
    return localtime_r(t, &g_tm);
}
struct tm *gmtime(time_t const *t) {
    if (ACTIVE) range((uintptr_t)&g_tm, sizeof g_tm, true, RA);
    return gmtime_r(t, &g_tm);
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
    i64 v = ACTIVE ? read_clock(CLOCK_REALTIME) : wall_now();
    tv->tv_sec = v / 1000000000;
    tv->tv_usec = v % 1000000000 / 1000;
    return 0;
}
static clock_t (*real_clock)();
clock_t clock() {
    if (!ACTIVE) return g_on ? mono_now() / 1000 : REAL(clock)();
    return read_clock(CLOCK_PROCESS_CPUTIME_ID) / 1000;
}

// futex behind std::future
bool dsim_futex_wait_until(void *, unsigned *addr, unsigned val, bool has_timeout, i64 s, i64 ns) __asm__(
    "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool dsim_futex_wait_until(void *, unsigned *addr, unsigned val, bool has_timeout, i64 s, i64 ns) {
    if (!ACTIVE) return true;
    Enter e;
    check_obj(addr, "future state");
    sync_point(29, sv_get(addr)->ord);
    if (*(volatile unsigned *)addr != val) return true;
    self->spur_at = g_never;
    if (O.spurious) {
        u64 v = do_fault("spurious-wakeup", 6, 60);
        if (v) self->spur_at = g_step + (1ull << (3 * v - 2));
    }
    block_on(W_FUTEX, addr, has_timeout, s * 1000000000ll + ns - g_wall_off);
    return !self->timed_out;
}
bool dsim_futex_wait_until_steady(void *, unsigned *addr, unsigned val, bool has_timeout, i64 s, i64 ns) __asm__(
    "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool dsim_futex_wait_until_steady(void *, unsigned *addr, unsigned val, bool has_timeout, i64 s, i64 ns) {
    if (!ACTIVE) return true;
    Enter e;
    check_obj(addr, "future state");
    sync_point(29, sv_get(addr)->ord);
    if (*(volatile unsigned *)addr != val) return true;
    block_on(W_FUTEX, addr, has_timeout, s * 1000000000ll + ns);
    return !self->timed_out;
}
void dsim_futex_notify(unsigned *addr) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void dsim_futex_notify(unsigned *addr) {
    if (!ACTIVE) return;
    Enter e;
    // no check_obj: a real futex wake on memory freed meanwhile is harmless
    sync_point(30, 0);
    wake_all(W_FUTEX, addr);
}

unsigned dsim_hw() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned dsim_hw() {
    const char *e = getenv("SIM_CPUS");
    return e ? atoi(e) : 4;
}
// std::random_device
static u64 g_entropy_seed;
void dsim_rd_init(void *, void *) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void dsim_rd_init(void *, void *) {}
void dsim_rd_fini(void *) __asm__("_ZNSt13random_device7_M_finiEv");
void dsim_rd_fini(void *) {}
unsigned dsim_rd_get(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned dsim_rd_get(void *) {
    if (!self) return 12345;
    return (unsigned)mix(g_entropy_seed ^ (u64)self->ent_stream * 7919, self->ent_idx++);
}

// ------------------------------------------------------------------------------------------------
// simulated disk
// ------------------------------------------------------------------------------------------------
struct VFile {
    char path[160];
    char *d;
    size_t n, cap;
    u64 acked;
    bool exists, bad;
};
struct VFd {
    VFile *f;
    u64 off;
    int fl;  // 1 read 2 write 4 append
    bool open;
};
static VFile VF[96];
static int NVF;
static const int MAXFD = 128, FD0 = 1000000;
static VFd FD[MAXFD];
static bool g_disk_full, g_io_failed;

static bool is_sim(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static VFile *vf_find(const char *p, bool create) {
    for (int i = 0; i < NVF; ++i)
        if (!strcmp(VF[i].path, p)) return &VF[i];
    if (!create) return nullptr;
    if (NVF == 96) die("too many simulated files");
    VFile *f = &VF[NVF++];
    __real_memset(f, 0, sizeof *f);
    snprintf(f->path, sizeof f->path, "%s", p);
    return f;
}
static void vf_put(VFile *f, u64 off, const char *d, size_t n) {
    if (off + n > f->cap) {
        size_t c = (off + n) * 2 + 4096;
        f->d = (char *)__real_realloc(f->d, c);
        f->cap = c;
    }
    if (off > f->n) __real_memset(f->d + f->n, 0, off - f->n);
    __real_memcpy(f->d + off, d, n);
    if (off + n > f->n) f->n = off + n;
}
static void io_crash_point() {
    if (O.crash && g_crash_fn && g_fs_faults && do_fault("crash-at-io", 2, 25)) do_crash();
}
static VFd *vfd_of(int fd) {
    if (fd < FD0 || fd >= FD0 + MAXFD) return nullptr;
    return &FD[fd - FD0];
}
static VFd *vfd_of_file(FILE *f) {
    VFd *v = (VFd *)f;
    if (v < FD || v >= FD + MAXFD) return nullptr;
    return v;
}
static FILE *vopen(const char *path, const char *mode) {
    Enter e;
    bool act = g_on && self;
    if (act) {
        sync_point(40, 0);
        io_crash_point();
        if (O.open_err && g_fs_faults && do_fault("open-fail", 2, 100)) {
            errno = EMFILE;
            return nullptr;
        }
    }
    bool plus = strchr(mode, '+') != nullptr;
    int fl = mode[0] == 'r' ? 1 : mode[0] == 'w' ? 2 : 6;
    if (plus) fl |= 3;
    VFile *f = vf_find(path, false);
    if (mode[0] == 'r' && (!f || !f->exists)) {
        errno = ENOENT;
        return nullptr;
    }
    if (!f) f = vf_find(path, true);
    if (mode[0] == 'w') f->n = 0, f->acked = 0;
    f->exists = true;
    for (int i = 0; i < MAXFD; ++i)
        if (!FD[i].open) {
            FD[i] = VFd{f, 0, fl, true};
            return (FILE *)&FD[i];
        }
    errno = EMFILE;
    return nullptr;
}
static ssize_t vwrite(VFd *v, const char *d, size_t n) {
    Enter e;
    if (!v->open || !(v->fl & 2)) {
        errno = EBADF;
        return -1;
    }
    bool act = g_on && self;
    if (act) {
        sync_point(41, v->f - VF);
        io_crash_point();
        if (g_fs_faults) {
            if (g_disk_full || v->f->bad) {
                errno = g_disk_full ? ENOSPC : EIO;
                return -1;
            }
            if (O.io_short) {
                if (do_fault("write-EINTR", 2, 60)) {
                    errno = EINTR;
                    return -1;
                }
                u64 k = n > 1 ? do_fault("short-write", 5, 80) : 0;
                if (k) {
                    static const int pc[] = {100, 1, 25, 50, 90};
                    size_t m = n * pc[k] / 100;
                    if (k == 1 || m == 0) m = 1;
                    if (m < n) n = m;
                }
            }
            if (O.io_once && do_fault("write-error-once", 2, 30)) {
                g_io_failed = true;
                errno = EIO;
                return -1;
            }
            if (O.io_err) {
                u64 k = do_fault("write-error", 4, 25);
                if (k) {
                    g_io_failed = true;
                    if (k == 1) {
                        v->f->bad = true;
                        errno = EIO;
                        return -1;
                    }
                    g_disk_full = true;
                    if (k == 2 || n < 2) {
                        errno = ENOSPC;
                        return -1;
                    }
                    n = n / 2;  // the disk fills up in the middle of this write
                }
            }
        }
    }
    u64 off = (v->fl & 4) ? v->f->n : v->off;
    vf_put(v->f, off, d, n);
    v->off = off + n;
    v->f->acked += n;
    slog("%llu T%d write %s %zu\n", (unsigned long long)g_step, self ? self->id : -1, v->f->path, n);
    return n;
}
static ssize_t vread(VFd *v, char *d, size_t n) {
    Enter e;
    if (!v->open || !(v->fl & 1)) {
        errno = EBADF;
        return -1;
    }
    bool act = g_on && self;
    if (act) {
        sync_point(42, v->f - VF);
        io_crash_point();
        if (g_fs_faults) {
            if (v->f->bad) {
                errno = EIO;
                return -1;
            }
            if (O.io_short && do_fault("read-EINTR", 2, 60)) {
                errno = EINTR;
                return -1;
            }
            if (O.io_once && do_fault("read-error-once", 2, 50)) {
                g_io_failed = true;
                errno = EIO;
                return -1;
            }
            if (O.io_err && do_fault("read-error", 2, 40)) {
                g_io_failed = true;
                v->f->bad = true;
                errno = EIO;
                return -1;
            }
        }
    }
    size_t left = v->f->n > v->off ? v->f->n - v->off : 0;
    size_t m = n < left ? n : left;
    if (act && m > 1 && g_fs_faults && O.io_short) {
        u64 k = do_fault("short-read", 4, 120);
        if (k == 1) m = 1;
        else if (k == 2) m = m / 2 ? m / 2 : 1;
        else if (k == 3 && m > 7) m = 7;
    }
    __real_memcpy(d, v->f->d + v->off, m);
    v->off += m;
    return m;
}
FILE *fopen(const char *p, const char *m) {
    if (is_sim(p)) return vopen(p, m);
    return REAL(fopen)(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    if (is_sim(p)) return vopen(p, m);
    return REAL(fopen64)(p, m);
}
int fclose(FILE *f) {
    if (VFd *v = vfd_of_file(f)) {
        Enter e;
        if (!v->open) violation("bad-close", "file closed twice");
        if (g_on && self) {
            sync_point(43, v->f - VF);
            io_crash_point();
        }
        v->open = false;
        return 0;
    }
    return REAL(fclose)(f);
}
int fflush(FILE *f) {
    if (f && vfd_of_file(f)) return 0;
    return REAL(fflush)(f);
}
int fileno(FILE *f) {
    if (VFd *v = vfd_of_file(f)) return FD0 + (v - FD);
    return REAL(fileno)(f);
}
ssize_t read(int fd, void *b, size_t n) {
    if (VFd *v = vfd_of(fd)) return vread(v, (char *)b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (VFd *v = vfd_of(fd)) return vwrite(v, (const char *)b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *io, int c) {
    if (VFd *v = vfd_of(fd)) {
        size_t tot = 0;
        for (int i = 0; i < c; ++i) tot += io[i].iov_len;
        char *b = (char *)__real_malloc(tot + 1);
        size_t p = 0;
        for (int i = 0; i < c; ++i) {
            __real_memcpy(b + p, io[i].iov_base, io[i].iov_len);
            p += io[i].iov_len;
        }
        ssize_t r = vwrite(v, b, tot);
        int er = errno;
        __real_free(b);
        errno = er;
        return r;
    }
    return syscall(SYS_writev, fd, io, c);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept {
    if (VFd *v = vfd_of(fd)) {
        i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)v->off : (i64)v->f->n;
        if (base + o < 0) {
            errno = EINVAL;
            return -1;
        }
        v->off = base + o;
        return v->off;
    }
    return syscall(SYS_lseek, fd, o, wh);
}
off_t lseek(int fd, off_t o, int wh) noexcept { return lseek64(fd, o, wh); }
int fstat(int fd, struct stat *st) noexcept {
    if (VFd *v = vfd_of(fd)) {
        __real_memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = v->f->n;
        return 0;
    }
    return syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int ioctl(int fd, unsigned long rq, ...) noexcept {
    va_list ap;
    va_start(ap, rq);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (VFd *v = vfd_of(fd)) {
        if (rq == FIONREAD) {
            *(int *)a = v->f->n > v->off ? (int)(v->f->n - v->off) : 0;
            return 0;
        }
        errno = EINVAL;
        return -1;
    }
    return syscall(SYS_ioctl, fd, rq, a);
}
int poll(struct pollfd *p, nfds_t n, int to) {
    if (n == 1 && vfd_of(p[0].fd)) {
        p[0].revents = p[0].events;
        return 1;
    }
    return syscall(SYS_poll, p, n, to);
}
static int (*real_remove)(const char *);
int remove(const char *p) noexcept {
    if (is_sim(p)) {
        VFile *f = vf_find(p, false);
        if (!f || !f->exists) return -1;
        f->exists = false;
        f->n = 0;
        return 0;
    }
    return REAL(remove)(p);
}
void __assert_fail(const char *ex, const char *file, unsigned line, const char *fn) {
    if (g_on && R) violation("assertion", "assertion '%s' failed in %s", ex, fn);
    die("assert %s %s:%u", ex, file, line);
    __builtin_unreachable();
}
}  // extern "C"

// ------------------------------------------------------------------------------------------------
// scenario API
// ------------------------------------------------------------------------------------------------
static sim::Scenario *g_scen;
static sim::Ev *g_hist;
static size_t g_nhist, g_chist;
static i64 g_ctr[256];
namespace sim {
Scenario::Scenario(const char *n, void (*f)()) : name(n), fn(f), next(g_scen) { g_scen = this; }
uint64_t pick(uint64_t n) {
    Enter e;
    if (n < 2) return 0;
    u32 i = g_widx++;
    u64 v = 0;
    if (g_replay) {
        for (u32 k = 0; k < RP.nwev; ++k)
            if (RP.wev[k].idx == i) v = RP.wev[k].val % n;
    } else
        v = rW.below(n);
    if (v && R->nwev < MAX_WEV) R->wev[R->nwev++] = WEv{i, v, n};
    hash_in(v * 31 + i);
    return v;
}
uint64_t fault(const char *kind, uint64_t n, unsigned rate) {
    Enter e;
    return do_fault(kind, n, rate);
}
void fail(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    violationv(kind, fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
void configure(const Opt &o) {
    Enter e;
    O = o;
    g_budget_end = g_step + o.budget;
    g_fair_from = g_step + o.horizon;
    if (!o.preempt) g_mean_plain = g_mean_sync = ~0ull >> 2;
    if (o.crash) g_crash_at = rF.below(3) ? g_step + 1 + rF.below(1ull << (6 + rF.below(13))) : ~0ull;
    compute_next();
}
void expect_exit(void (*f)()) { g_exit_fn = f; }
void on_crash(void (*f)()) { g_crash_fn = f; }
void quiet(bool on) {
    Enter e;
    g_quiet += on ? 1 : -1;
    if (g_quiet < 0) die("quiet underflow");
    if (!g_quiet && cur) cur->last_run = g_step;
    compute_next();
}
size_t fresh_raw(void (*fn)(void *), void *arg, char **out) {
    Enter e;
    int n = 0;
    for (int i = 0; i < NT; ++i) n += T[i].st != DONE && T[i].st != FREE;
    if (n != 1) die("sim::fresh with %d threads running", n);
    const size_t cap = 16u << 20;
    FreshBuf *b = (FreshBuf *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) die("mmap fresh");
    b->cap = cap - sizeof(FreshBuf);
    pid_t p = fork();
    if (p < 0) die("fork");
    if (p == 0) {
        Result *r = (Result *)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        __real_memcpy((void *)r, (void *)R, offsetof(Result, sev));
        R = r;
        g_fresh = b;
        g_quiet += 1;
        compute_next();
        struct itimerval it = {{0, 0}, {20, 0}};
        setitimer(ITIMER_PROF, &it, 0);
        {
            bool in = g_in_rt;
            g_in_rt = false;
            fn(arg);
            g_in_rt = in;
        }
        b->done = 1;
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!b->done) violation("reference", "a reference run in a process of its own ended abnormally (%s)", b->why);
    *out = b->data;
    return b->n;
}
void fresh_free(char *out) {
    Enter e;
    FreshBuf *b = (FreshBuf *)(out - offsetof(FreshBuf, data));
    munmap(b, b->cap + sizeof(FreshBuf));
}
void fresh_put(const void *d, size_t n) {
    Enter e;
    if (!g_fresh || g_fresh->n + n > g_fresh->cap) die("fresh_put");
    __real_memcpy(g_fresh->data + g_fresh->n, d, n);
    g_fresh->n += n;
}
void reset_budget() {
    Enter e;
    g_budget_end = g_step + O.budget;
    g_fair_from = g_step + O.horizon;
    if (g_sw_plain < g_step) g_sw_plain = g_step + rS.gap(g_mean_plain);
    if (g_strat == S_PCT)
        for (int i = 0; i < g_npct; ++i) g_pct_points[i] += g_sync;
    if (g_crash_at != ~0ull) g_crash_at += g_step;
    if (g_stall_at != ~0ull) g_stall_at += g_step;
    compute_next();
}
void point() {
    if (!ACTIVE) return;
    Enter e;
    sync_point(50, 0);
}
void yield() { sched_yield(); }
uint64_t step() { return g_step; }
int tid() { return self ? self->id : -1; }
int nthreads() { return NT; }
int blocked_threads() {
    int n = 0;
    for (int i = 0; i < NT; ++i) n += T[i].st == BLOCKED;
    return n;
}
bool thread_done(int t) { return t < NT && T[t].st == DONE; }
int64_t mono_ns() { return mono_now(); }
int64_t wall_ns() { return wall_now(); }
void advance_ns(int64_t n) {
    Enter e;
    g_mono_extra += n;
    compute_next();
}
void jump_wall_ns(int64_t d) { g_wall_off += d; }
void rec(int tag, int64_t a, int64_t b, int64_t c) {
    Enter e;
    if (g_nhist == g_chist) {
        g_chist = g_chist ? g_chist * 2 : 1024;
        g_hist = (Ev *)__real_realloc(g_hist, g_chist * sizeof(Ev));
    }
    ++g_step;
    if (g_next <= g_step) g_next = g_step + 1;
    g_hist[g_nhist++] = Ev{g_step, self ? self->id : -1, tag, a, b, c};
    hash_in((u64)tag ^ (u64)a * 3 ^ (u64)b * 5 ^ (u64)c * 7);
    slog("%llu T%d event %d: %lld %lld %lld\n", (unsigned long long)g_step, self ? self->id : -1, tag, (long long)a, (long long)b, (long long)c);
}
size_t nrec() { return g_nhist; }
Ev get(size_t i) { return g_hist[i]; }
void note(const char *fmt, ...) {
    Enter e;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof R->notes - R->nnotes;
    if (room > 2) {
        int n = vsnprintf(R->notes + R->nnotes, room - 1, fmt, ap);
        if (n > 0) {
            R->nnotes += n < (int)room - 1 ? n : (int)room - 2;
            R->notes[R->nnotes++] = '\n';
        }
    }
    va_end(ap);
}
void probe(const char *name) {
    Enter e;
    for (int i = 0; i < R->nprobes; ++i)
        if (!strncmp(R->probe_names[i], name, 31)) {
            R->probes[i]++;
            return;
        }
    if (R->nprobes < 32) {
        snprintf(R->probe_names[R->nprobes], 32, "%s", name);
        R->probes[R->nprobes++] = 1;
    }
}
int64_t ctr_add(int i, int64_t d) { return g_ctr[i] += d; }
int64_t ctr_get(int i) { return g_ctr[i]; }
void ctr_set(int i, int64_t v) { g_ctr[i] = v; }
size_t fs_raw(const char *p, const char **d) {
    VFile *f = vf_find(p, false);
    if (!f || !f->exists) {
        *d = nullptr;
        return 0;
    }
    *d = f->d;
    return f->n;
}
bool fs_exists(const char *p) {
    VFile *f = vf_find(p, false);
    return f && f->exists;
}
void fs_put_raw(const char *p, const char *d, size_t n) {
    Enter e;
    VFile *f = vf_find(p, true);
    f->exists = true;
    f->n = 0;
    vf_put(f, 0, d, n);
}
void fs_remove(const char *p) {
    VFile *f = vf_find(p, false);
    if (f) f->exists = false, f->n = 0;
}
bool fs_failed() { return g_io_failed; }
void fs_heal() {
    g_disk_full = false;
    for (int i = 0; i < NVF; ++i) VF[i].bad = false;
}
int fs_open_count() {
    int n = 0;
    for (int i = 0; i < MAXFD; ++i) n += FD[i].open;
    return n;
}
void fs_faults(bool on) { g_fs_faults = on; }
uint64_t fs_acked(const char *p) {
    VFile *f = vf_find(p, false);
    return f ? f->acked : 0;
}
void alloc_faults(bool on) { self->alloc_armed = on; }
void thread_faults(bool on) { g_thread_faults = on; }
void entropy_id(int id) {
    self->ent_stream = id;
    self->ent_idx = 0;
}
uint64_t live_blocks() { return live_count; }
bool replaying() { return g_replay; }
}  // namespace sim

// ------------------------------------------------------------------------------------------------
// run driver
// ------------------------------------------------------------------------------------------------
static void final_handler() {  // registered first: runs after every other exit handler
    if (!g_on) return;
    if (!R->finished && !R->violation && g_exit_fn) {  // the program may end itself: the scenario judges
        R->finished = 1;
        g_exit_fn();
    }
    g_in_rt = true;
    if (!R->finished && !R->violation) {
        R->violation = 1;
        snprintf(R->kind, sizeof R->kind, "unexpected-exit");
        snprintf(R->msg, sizeof R->msg, "the process exited in the middle of the run");
        dump_threads();
    }
    finish_child(0);
}
static sim::Scenario *g_cur_scen;
static void *main_body(void *) {
    g_cur_scen->fn();
    {
        Enter e;
        R->finished = 1;
        hash_in(0xe11d);
    }
    exit(0);
    return nullptr;
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
    if (!R || !g_on) syscall(SYS_exit_group, 4);
    if (!R->violation) {
        R->violation = 1;
        bool hang = sig == SIGPROF || sig == SIGALRM;
        snprintf(R->kind, sizeof R->kind, hang ? "hang" : "crash");
        uintptr_t pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
        if (hang) snprintf(R->msg, sizeof R->msg, "a thread loops without reaching any simulated event");
        else snprintf(R->msg, sizeof R->msg, "signal %d at pc %lx", sig, (unsigned long)pc);
        (void)si;
        dump_threads();
    }
    finish_child(0);
}
static void child_run(u64 seed) {
    R->seed = seed;
    R->hash = 0xcbf29ce484222325ull;
    R->sched_hash = R->hash;
    rW.s = mix(seed, 1);
    rS.s = mix(seed, 2);
    rF.s = mix(seed, 3);
    rP.s = mix(seed, 4);
    g_entropy_seed = mix(seed, 5);
    strat_init();
    stack_t ss;
    ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    ss.ss_flags = 0;
    struct sigaction sa;
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF};
    for (int s : sigs) sigaction(s, &sa, 0);
    const char *hs = getenv("SIM_HANG_CPU");
    struct itimerval it = {{0, 0}, {hs ? atoi(hs) : 20, 0}};
    setitimer(ITIMER_PROF, &it, 0);
    (void)ss;
    pthread_key_create(&exit_key, thread_finished);
    g_budget_end = 3000000;
    g_fair_from = 400000;
    g_next = 1;
    g_in_rt = true;
    Thr *t = thr_alloc();
    t->fn = main_body;
    t->st = RUN;
    t->vc.c[0] = 1;
    t->ent_stream = 1;
    cur = t;
    g_on = true;
    if (thr_start(t)) die("main thread");
    sem_post_(t);
    for (;;) pause();
}

static void json_str(FILE *o, const char *s) {
    fputc('"', o);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') fprintf(o, "\\%c", *s);
        else if (*s == '\n') fputs("\\n", o);
        else if ((unsigned char)*s < 32) fprintf(o, "\\u%04x", *s);
        else fputc(*s, o);
    }
    fputc('"', o);
}
static void dump_result(FILE *o, bool full, const char *scen) {
    fprintf(o, "{\"scenario\":\"%s\",\"seed\":%llu,\"violation\":%d,\"kind\":", scen, (unsigned long long)R->seed, R->violation);
    json_str(o, R->kind);
    fprintf(o, ",\"msg\":");
    json_str(o, R->msg);
    fprintf(o, ",\"steps\":%llu,\"syncs\":%llu,\"switches\":%llu,\"hash\":\"%016llx\",\"threads\":%d,\"sim_ns\":%lld,\"races\":%llu,\"crashed\":%d,\"finished\":%d,\"stale\":%llu,\"plain\":%llu,\"atomics\":%llu",
            (unsigned long long)R->steps, (unsigned long long)R->syncs, (unsigned long long)R->switches, (unsigned long long)R->hash, R->nthreads,
            (long long)R->sim_ns, (unsigned long long)R->races, R->crashed_by_sim, R->finished, (unsigned long long)R->stale_loads, (unsigned long long)R->plain, (unsigned long long)R->atomics);
    fprintf(o, ",\"faults\":{");
    for (int i = 0; i < R->nkinds; ++i) fprintf(o, "%s\"%s\":[%llu,%llu]", i ? "," : "", R->kinds[i], (unsigned long long)R->fault_fired[i], (unsigned long long)R->fault_asked[i]);
    fprintf(o, "},\"probes\":{");
    for (int i = 0; i < R->nprobes; ++i) fprintf(o, "%s\"%s\":%llu", i ? "," : "", R->probe_names[i], (unsigned long long)R->probes[i]);
    fprintf(o, "}");
    if (full) {
        fprintf(o, ",\"where\":");
        json_str(o, R->where);
        fprintf(o, ",\"notes\":");
        json_str(o, R->notes);
        fprintf(o, ",\"W\":[");
        for (u32 i = 0; i < R->nwev; ++i) fprintf(o, "%s[%u,%llu,%llu]", i ? "," : "", R->wev[i].idx, (unsigned long long)R->wev[i].val, (unsigned long long)R->wev[i].n);
        fprintf(o, "],\"F\":[");
        for (u32 i = 0; i < R->nfev; ++i) fprintf(o, "%s[\"%s\",%u,%llu]", i ? "," : "", R->kinds[R->fev[i].kind], R->fev[i].idx, (unsigned long long)R->fev[i].val);
        fprintf(o, "],\"S\":[");
        for (u32 i = 0; i < R->nsev; ++i) fprintf(o, "%s[%llu,%u,%u,%llu]", i ? "," : "", (unsigned long long)R->sev[i].step, R->sev[i].type, R->sev[i].a, (unsigned long long)R->sev[i].b);
        fprintf(o, "]");
        if (g_log_on) {
            fprintf(o, ",\"log\":");
            json_str(o, R->log);
        }
    }
    fprintf(o, "}\n");
}
static int run_one(u64 seed) {
    // reset the (shared) result area; the big lists need no clearing
    __real_memset((void *)R, 0, offsetof(Result, sev));
    R->nlog = 0;
    R->log[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) die("fork");
    if (p == 0) {
        if (!getenv("SIM_VERBOSE")) {
            int n = open("/dev/null", O_RDWR);
            dup2(n, 1);
            if (!getenv("SIM_STDERR")) dup2(n, 2);
        }
        child_run(seed);
        syscall(SYS_exit_group, 5);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!R->violation && !R->finished) {
        if (WIFSIGNALED(st)) {
            R->violation = 1;
            snprintf(R->kind, sizeof R->kind, "crash");
            snprintf(R->msg, sizeof R->msg, "run ended by signal %d", WTERMSIG(st));
        } else
            return -1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) return -1;
    return R->violation ? 1 : 0;
}

// replay file (line based, written by check.py):  W idx val | F kind idx val | S step type a b
static void load_replay(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) die("cannot open replay %s", path);
    RP.sev = (SEv *)__real_calloc(MAX_SEV, sizeof(SEv));
    RP.fev = (FEv *)__real_calloc(MAX_FEV, sizeof(FEv));
    RP.wev = (WEv *)__real_calloc(MAX_WEV, sizeof(WEv));
    char line[256];
    static char kn[MAXKIND][24];
    int nk = 0;
    while (fgets(line, sizeof line, f)) {
        unsigned long long a, b, c, d;
        char k[64];
        if (sscanf(line, "W %llu %llu", &a, &b) == 2) RP.wev[RP.nwev++] = WEv{(u32)a, b, 0};
        else if (sscanf(line, "F %60s %llu %llu", k, &a, &b) == 3) {
            int i = 0;
            for (; i < nk; ++i)
                if (!strcmp(kn[i], k)) break;
            if (i == nk) snprintf(kn[nk++], 24, "%.23s", k);
            RP.fev[RP.nfev++] = FEv{(u32)i, (u32)a, b};
        } else if (sscanf(line, "S %llu %llu %llu %llu", &a, &b, &c, &d) == 4)
            RP.sev[RP.nsev++] = SEv{a, (u32)b, (u32)c, d};
    }
    fclose(f);
    rk_names = kn;
    rk_n = nk;
}

__attribute__((constructor(101))) static void rt_init() {
    bool p = g_in_rt;
    g_in_rt = true;
    arena_init();
    R = (Result *)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (R == MAP_FAILED) die("mmap result");
    atexit(final_handler);
    g_in_rt = p;
}

static double real_now() {
    struct timespec ts;
    REAL(clock_gettime)(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
int main(int argc, char **argv) {
    g_in_rt = true;
    const char *scen = nullptr, *replay = nullptr, *hashes = nullptr;
    u64 base = 1, first = 0, stride = 1, count = ~0ull, one = 0;
    bool have_one = false, list = false, verify = false;
    double secs = 5;
    int cpu = -1, maxviol = 1;
    for (int i = 1; i < argc; ++i) {
        const char *a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)"0"; };
        if (!strcmp(a, "--scenario")) scen = nx();
        else if (!strcmp(a, "--base")) base = strtoull(nx(), 0, 10);
        else if (!strcmp(a, "--first")) first = strtoull(nx(), 0, 10);
        else if (!strcmp(a, "--stride")) stride = strtoull(nx(), 0, 10);
        else if (!strcmp(a, "--count")) count = strtoull(nx(), 0, 10);
        else if (!strcmp(a, "--secs")) secs = atof(nx());
        else if (!strcmp(a, "--cpu")) cpu = atoi(nx());
        else if (!strcmp(a, "--seed")) one = strtoull(nx(), 0, 10), have_one = true;
        else if (!strcmp(a, "--replay")) replay = nx();
        else if (!strcmp(a, "--hashes")) hashes = nx();
        else if (!strcmp(a, "--maxviol")) maxviol = atoi(nx());
        else if (!strcmp(a, "--log")) g_log_on = true;
        else if (!strcmp(a, "--list")) list = true;
        else if (!strcmp(a, "--verify")) verify = true;
    }
    if (list) {
        for (sim::Scenario *s = g_scen; s; s = s->next) printf("%s\n", s->name);
        fflush(stdout);
        _exit(0);
    }
    for (sim::Scenario *s = g_scen; s; s = s->next)
        if (scen && !strcmp(s->name, scen)) g_cur_scen = s;
    if (!g_cur_scen) die("no such scenario: %s", scen ? scen : "(none)");
    setenv("TZ", "UTC", 1);
    if (cpu >= 0) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(cpu, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (replay || have_one) {
        if (replay) {
            g_replay = true;
            load_replay(replay);
        }
        int r = run_one(one);
        if (r < 0) die("run did not complete properly");
        dump_result(stdout, true, scen);
        fflush(stdout);
        _exit(0);
    }
    FILE *hf = hashes ? fopen(hashes, "wb") : nullptr;
    double t0 = real_now();
    u64 done = 0, i = first;
    int nv = 0;
    struct Agg {
        u64 runs, steps, syncs, switches, nontrivial, stale, plain, atomics, crashed, maxthreads, verified;
        double ns;
        u64 ff[MAXKIND], fa[MAXKIND];
        char names[MAXKIND][24];
        int nk;
        u64 pr[32];
        char pn[32][32];
        int np;
    };
    static Agg A;
    for (; done < count; i += stride, ++done) {
        if (real_now() - t0 > secs) break;
        u64 seed = mix(base, mix(i, 0x5eed)) >> 1;
        int r = run_one(seed);
        if (r < 0) die("run did not complete properly, seed %llu", (unsigned long long)seed);
        if (verify && !R->violation) {  // determinism sample: same seed again
            u64 h = R->hash, s = R->steps;
            if (run_one(seed) < 0 || R->hash != h || R->steps != s) die("NONDETERMINISM seed %llu", (unsigned long long)seed);
            A.verified++;
        }
        A.runs++;
        A.steps += R->steps;
        A.syncs += R->syncs;
        A.switches += R->switches;
        A.stale += R->stale_loads;
        A.plain += R->plain;
        A.atomics += R->atomics;
        A.crashed += R->crashed_by_sim;
        A.ns += R->sim_ns;
        if ((u64)R->nthreads > A.maxthreads) A.maxthreads = R->nthreads;
        u64 fired = 0;
        for (int k = 0; k < R->nkinds; ++k) {
            int j = 0;
            for (; j < A.nk; ++j)
                if (!strcmp(A.names[j], R->kinds[k])) break;
            if (j == A.nk) strcpy(A.names[A.nk++], R->kinds[k]);
            A.ff[j] += R->fault_fired[k];
            A.fa[j] += R->fault_asked[k];
            fired += R->fault_fired[k];
        }
        for (int k = 0; k < R->nprobes; ++k) {
            int j = 0;
            for (; j < A.np; ++j)
                if (!strcmp(A.pn[j], R->probe_names[k])) break;
            if (j == A.np && A.np < 32) strcpy(A.pn[A.np++], R->probe_names[k]);
            if (j < 32) A.pr[j] += R->probes[k];
        }
        bool nt = R->switches > 2 || fired > 0 || R->nsev > 0;
        if (nt) A.nontrivial++;
        if (hf) {
            u64 h[2] = {nt ? mix(R->sched_hash, R->hash) : 0, R->sched_hash};
            fwrite(h, 8, 2, hf);
        }
        if (R->violation) {
            printf("V ");
            dump_result(stdout, true, scen);
            fflush(stdout);
            if (++nv >= maxviol) {
                ++done;
                break;
            }
        }
    }
    if (hf) fclose(hf);
    printf("A {\"scenario\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"syncs\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"stale\":%llu,\"plain\":%llu,\"atomics\":%llu,\"crashed\":%llu,\"sim_ns\":%.0f,\"maxthreads\":%llu,\"verified\":%llu,\"secs\":%.3f,\"next\":%llu,\"faults\":{",
           scen, (unsigned long long)A.runs, (unsigned long long)A.steps, (unsigned long long)A.syncs, (unsigned long long)A.switches, (unsigned long long)A.nontrivial,
           (unsigned long long)A.stale, (unsigned long long)A.plain, (unsigned long long)A.atomics, (unsigned long long)A.crashed, A.ns, (unsigned long long)A.maxthreads, (unsigned long long)A.verified, real_now() - t0, (unsigned long long)i);
    for (int k = 0; k < A.nk; ++k) printf("%s\"%s\":[%llu,%llu]", k ? "," : "", A.names[k], (unsigned long long)A.ff[k], (unsigned long long)A.fa[k]);
    printf("},\"probes\":{");
    for (int k = 0; k < A.np; ++k) printf("%s\"%s\":%llu", k ? "," : "", A.pn[k], (unsigned long long)A.pr[k]);
    printf("}}\n");
    fflush(stdout);
    _exit(0);
}
