// dsim: deterministic simulation runtime, interface seen by scenarios.
// Everything here is implemented in rt.cpp, which is not instrumented: calling it never races and,
// unless stated otherwise, is not a scheduling point.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---- workload choices -------------------------------------------------------------------------
// A value in [0,n). Recorded in the replay file; 0 is the simplest choice (minimiser's default).
uint64_t pick(uint64_t n);
// A fault choice at a site: 0 = no fault, else 1..n-1. `rate` is the probability (per 1000) of a
// non-zero value while faults are allowed. kind is a static string that names the fault kind.
uint64_t fault(const char *kind, uint64_t n, unsigned rate_permille);

// ---- verdicts ---------------------------------------------------------------------------------
// Report a violation (kind: short stable class used by the minimiser and known findings).
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...)                  \
    do {                                            \
        if (!(cond)) ::sim::fail(kind, __VA_ARGS__); \
    } while (0)

// ---- run configuration (call at the start of a scenario) ---------------------------------------
struct Opt {
    bool races = true;         // data races are violations
    bool weak = false;         // atomics may return stale values the memory model allows
    bool spurious = true;      // spurious condition-variable wake-ups
    bool stalls = true;        // threads stalled for a while
    bool preempt = true;       // schedule perturbation at all
    bool thread_fail = false;  // pthread_create may fail
    bool crash = false;        // process crash at an arbitrary point (needs on_crash)
    bool io_short = false;     // short reads / writes, EINTR
    bool io_err = false;       // permanent EIO / ENOSPC
    bool io_once = false;      // a read or write that fails with EIO and works again later (use without io_short: see DESIGN.md)
    bool open_err = false;     // open fails
    bool clock = false;        // stalls of all time and jumps of wall-clock time at clock reads
    bool alloc_fail = false;   // memory allocations may fail where alloc_faults(true)
    uint64_t budget = 3000000; // steps before "no progress" is reported
    uint64_t horizon = 400000; // after this many steps scheduling is fair and no faults happen
};
void configure(const Opt &);
void on_crash(void (*fn)());
void expect_exit(void (*fn)());  // the code under test may call exit(): fn then judges the state
// While quiet: no preemption, no faults, no race reports (reference runs, oracles). Nestable.
void quiet(bool on);
void reset_budget();
// Reference run in a pristine copy of the process: forks (no other thread may be running), runs f there
// quietly, and returns the bytes f handed to fresh_put. Nothing f does is seen by this process.
size_t fresh_raw(void (*fn)(void *), void *arg, char **out);
void fresh_put(const void *d, size_t n);
void fresh_free(char *out);
template <typename F>
std::string fresh(F f) {
    char *o = nullptr;
    size_t n = fresh_raw([](void *a) { (*static_cast<F *>(a))(); }, &f, &o);
    std::string s(o, n);
    fresh_free(o);
    return s;
}

// ---- scheduling --------------------------------------------------------------------------------
void point();              // explicit scheduling point
void yield();              // scheduling point that prefers another thread
uint64_t step();           // global event sequence number
int tid();                 // simulated thread number (0 = main)
int nthreads();            // threads created so far
int blocked_threads();     // threads currently blocked
bool thread_done(int tid);

// ---- time --------------------------------------------------------------------------------------
int64_t mono_ns();
int64_t wall_ns();
void advance_ns(int64_t ns);  // all clocks move forward
void jump_wall_ns(int64_t d); // only the wall clock moves (either way)

// ---- history -----------------------------------------------------------------------------------
struct Ev {
    uint64_t step;
    int tid;
    int tag;
    int64_t a, b, c;
};
void rec(int tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
size_t nrec();
Ev get(size_t i);
inline int64_t bits(double d) {
    int64_t r;
    __builtin_memcpy(&r, &d, 8);
    return r;
}
inline double dbl(int64_t i) {
    double d;
    __builtin_memcpy(&d, &i, 8);
    return d;
}
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // text for the replay report
void probe(const char *name);                                          // "this rare condition was hit"

// Shared counters that are not scheduling points and never race (oracle state).
int64_t ctr_add(int idx, int64_t d);
int64_t ctr_get(int idx);
void ctr_set(int idx, int64_t v);

// ---- simulated disk (paths starting with /sim/) --------------------------------------------------
size_t fs_raw(const char *path, const char **data);
inline std::string fs_get(const char *path) {
    const char *d = nullptr;
    size_t n = fs_raw(path, &d);
    return std::string(d ? d : "", n);
}
bool fs_exists(const char *path);
void fs_put_raw(const char *path, const char *data, size_t n);
inline void fs_put(const char *path, const std::string &content) { fs_put_raw(path, content.data(), content.size()); }
void fs_remove(const char *path);
bool fs_failed();  // a permanent I/O error was injected in this run
void fs_heal();    // permanent errors stop
int fs_open_count();
void fs_faults(bool on);       // suspend all injected I/O faults
uint64_t fs_acked(const char *path);  // bytes acknowledged by successful writes

// ---- randomness ----------------------------------------------------------------------------------
void entropy_id(int id);  // std::random_device of this thread now draws from stream `id`, from its start

// ---- allocation ------------------------------------------------------------------------------------
void alloc_faults(bool on);  // of this thread
void thread_faults(bool on);  // Opt::thread_fail suspended or not (on at the start)
struct AllocFaults {
    AllocFaults() { alloc_faults(true); }
    ~AllocFaults() { alloc_faults(false); }
};
uint64_t live_blocks();

bool replaying();

struct Scenario {
    const char *name;
    void (*fn)();
    Scenario *next;
    Scenario(const char *n, void (*f)());
};
}  // namespace sim

#define SIM_SCENARIO(ident)                              \
    static void ident##_body();                          \
    static ::sim::Scenario ident##_reg(#ident, ident##_body); \
    static void ident##_body()
