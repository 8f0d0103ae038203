// C04: sliced callbacks. Real code: src/args-callback/callbacks.hpp (TimeSlice, LogTimeSlice, StepSlice),
// driven by a simulated system whose time advances by small steps, jumps and stalls.
#include <algorithm>
#include <cmath>
#include <optional>
#include "common.h"
#include "spaceHub.hpp"

namespace {
struct Sys {
    using Scalar = double;
    double t{0};
    double time() const { return t; }
};
const double STEP[] = {0, 1, 0.25, 0.5, 2, 3, 10, 100, 1e4, 1e7};

// What a slice with due points at(k), k = first..n, must do. Points closer to a state than `tol` may be
// counted with that state or the next (they cannot be told apart after rounding), exact ones may not.
struct Due {
    enum Kind { equal, geometric, weak } kind{equal};
    long double start{0}, end{0}, ratio{0};
    uint64_t n{1};
    bool exact{false};
    long double done{-INFINITY}, maydone{-INFINITY};  // due points up to here have been / may have been dealt with

    void make(bool log, double s, double e, uint64_t num, bool ex) {
        start = s, end = e, n = num, exact = ex;
        done = maydone = -INFINITY;
        kind = equal;
        if (log) {
            kind = e - s > 1.000001 ? geometric : weak;
            ratio = std::pow((long double)e - s, 1.0L / num);
        }
        if (num > 1000000) kind = weak;
    }
    // how far rounding may move a due point near t
    long double tol(long double t) const {
        if (exact || t < start) return exact ? 0 : 1e-12L * std::fabs(start);
        if (kind == equal) return 1e-11L * std::max(std::fabs(start), std::fabs(end));
        return 1e-11L * std::fabs(start) + (t - start) * (1e-11L + 4e-16L * n);
    }
    long double first() const { return kind == equal ? start : start + ratio; }
    // Is there a due point d with lo < d <= hi and d <= end?
    bool any(long double lo, long double hi) const {
        hi = std::min(hi, end);
        if (!(hi >= first()) || !(lo < hi)) return false;
        if (kind == equal) {
            if (end == start) return lo < start && start <= hi;
            long double w = (end - start) / n;
            long double k = lo < start ? 0 : std::floor((lo - start) / w) - 1;
            if (k < 0) k = 0;
            for (int i = 0; i < 4; ++i, k += 1) {
                if (k > n) return false;
                long double d = k == n ? end : start + k * w;
                if (d > lo) return d <= hi;
            }
            return false;
        }
        long double k = lo < first() ? 1 : std::floor(std::log(lo - start) / std::log(ratio)) - 1;
        if (k < 1) k = 1;
        for (int i = 0; i < 5; ++i, k += 1) {
            if (k > n) return false;
            long double d = k == n ? end : start + std::pow(ratio, k);
            if (d > lo) return d <= hi;
        }
        return false;
    }
    // judge one call
    void call(double t, unsigned fired, const char *what) {
        SIM_CHECK(fired <= 1, "fired-twice", "%s: the callback ran %u times for one state at time %.17g", what, fired, t);
        if (fired) {
            SIM_CHECK(t <= end, "fired-after-end", "%s [%.17g,%.17g]/%llu: the callback ran at %.17g, after the window", what, (double)start, (double)end,
                      (unsigned long long)n, t);
            SIM_CHECK(t >= start, "fired-before-start", "%s [%.17g,%.17g]/%llu: the callback ran at %.17g, before the window", what, (double)start, (double)end,
                      (unsigned long long)n, t);
        }
        if (kind == weak) return;
        long double e = tol(t);
        bool surely = t <= end && any(maydone, (long double)t - e);
        bool maybe = t <= end && any(done, (long double)t + e);
        if (fired)
            SIM_CHECK(maybe, "not-due", "%s [%.17g,%.17g]/%llu: the callback ran at %.17g, no due point was passed since %.17g", what, (double)start, (double)end,
                      (unsigned long long)n, t, (double)done);
        else
            SIM_CHECK(!surely, "missed", "%s [%.17g,%.17g]/%llu: the callback did not run at %.17g, a due point was passed since %.17g", what, (double)start,
                      (double)end, (unsigned long long)n, t, (double)maydone);
        done = std::max(done, t - e);
        maydone = std::max(maydone, fired ? t + e : t - e);
    }
};

template <bool Log, bool Bool>
struct Box {
    struct Op {
        unsigned *hits;
        double *at;
        auto operator()(Sys &s, double) const {
            ++*hits;
            *at = s.time();
            if constexpr (Bool) return (*hits % 2) == 1;
        }
    };
    using S = std::conditional_t<Log, hub::callback::LogTimeSlice<Op, double>, hub::callback::TimeSlice<Op, double>>;
};

struct Win {
    double s, e;
    uint64_t n;
    bool exact;
};
Win window(bool log, double now) {
    Win w;
    w.n = 1 + sim::pick(12);
    if (sim::pick(8) == 7) w.n = (uint64_t[]){5000, 100000, 1ull << 40}[sim::pick(3)];
    if (sim::pick(3) < 2) {  // equal spacing without rounding
        double unit = (double[]){1, 0.5, 16, 1024}[sim::pick(4)];
        w.s = std::floor(now) + (double)sim::pick(9) * unit - (sim::pick(3) == 2 ? 4 * unit : 0);
        w.e = w.s + unit * w.n;
        w.exact = !log && w.n < 200000;
        if (sim::pick(12) == 11) w.e = w.s, w.exact = true;
    } else {
        w.s = now + (double)sim::pick(1000) * 0.0371;
        w.e = w.s + (double)(1 + sim::pick(100000)) * (double[]){0.001, 0.137, 31.7, 1e-6}[sim::pick(4)];
        w.exact = false;
        if (sim::pick(12) == 11) w.e = w.s, w.exact = true;
    }
    if (sim::pick(10) == 9) {  // a window late in time: neighbouring due points may round to one number
        w.s = (double[]){1e9, 1e12, 1.7e13, 1e15}[sim::pick(4)];
        w.e = w.s + (double[]){1, 100, 1e5, 1e9}[sim::pick(4)];
        w.exact = false;
    }
    if (log && sim::pick(6) == 5) w.e = w.s + (double[]){1, 0.5, 1.0000000000000002, 2}[sim::pick(4)], w.exact = false;
    return w;
}

template <bool Log, bool Bool>
void time_slice() {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = 200000;
    sim::configure(o);
    using B = Box<Log, Bool>;
    const char *what = Log ? "LogTimeSlice" : "TimeSlice";
    Sys sys;
    sys.t = (double[]){0, 1, 1000, -7, 1e6}[sim::pick(5)];
    unsigned hits[2] = {0, 0};
    double at[2] = {0, 0};
    std::optional<typename B::S> sl[2];
    Due due[2];
    Win w = window(Log, sys.t);
    sim::note("%s [%.17g,%.17g]/%llu", what, w.s, w.e, (unsigned long long)w.n);
    sl[0].emplace(typename B::Op{&hits[0], &at[0]}, w.s, w.e, w.n);
    due[0].make(Log, w.s, w.e, w.n, w.exact);
    int live = 1;
    int n = 4 + sim::pick(60);
    double base = STEP[1 + sim::pick(6)] * (w.e > w.s && sim::pick(2) ? (w.e - w.s) / (double)w.n : 0.1);
    for (int i = 0; i < n; ++i) {
        if (uint64_t j = sim::fault("time-jump", 10, 80))
            sys.t += STEP[j];
        else if (sim::fault("time-stands-still", 2, 80))
            ;
        else
        switch (sim::pick(16)) {
            case 15: {  // new window
                int k = sim::pick(live);
                Win v = window(Log, sim::pick(2) ? sys.t : 0);
                sim::note("reset %d [%.17g,%.17g]/%llu", k, v.s, v.e, (unsigned long long)v.n);
                sl[k]->reset_slice_params(v.s, v.e, v.n);
                due[k].make(Log, v.s, v.e, v.n, v.exact);
                if (k == 0) w = v;
                break;
            }
            case 14:  // a second slice of its own
                if (live == 1) {
                    Win v = window(Log, sys.t);
                    sim::note("second [%.17g,%.17g]/%llu", v.s, v.e, (unsigned long long)v.n);
                    sl[1].emplace(typename B::Op{&hits[1], &at[1]}, v.s, v.e, v.n);
                    due[1].make(Log, v.s, v.e, v.n, v.exact);
                    live = 2;
                }
                break;
            case 13:  // the time just before the next state falls on a special point
                if (w.e >= sys.t) sys.t = sim::pick(2) ? w.e : std::max(sys.t, w.s);
                break;
            case 11: sys.t = std::nextafter(sys.t, INFINITY); break;
            case 10: sys.t += w.e > w.s ? (w.e - w.s) / w.n * (double)(1 + sim::pick(3)) : 1; break;
            case 9:  // onto an exactly representable due point
                if (w.exact && w.e > w.s) {
                    double d = (w.e - w.s) / w.n;
                    double k = std::ceil((sys.t - w.s) / d) + (double)sim::pick(2);
                    if (k >= 0) sys.t = std::max(sys.t, w.s + k * d);
                }
                break;
            default: sys.t += base * (double)(1 + sim::pick(7)) / 4;
        }
        for (int k = 0; k < live; ++k) {
            unsigned before = hits[k];
            if constexpr (Bool) {
                bool r = (*sl[k])(sys, 0.1);
                SIM_CHECK(r == (hits[k] != before && hits[k] % 2 == 1), "result", "%s returned %d, its operation %s", what, r,
                          hits[k] == before ? "did not run" : "returned the opposite");
            } else
                (*sl[k])(sys, 0.1);
            due[k].call(sys.t, hits[k] - before, what);
        }
    }
}
}  // namespace

SIM_SCENARIO(slice_time) {
    if (sim::pick(2))
        time_slice<false, true>();
    else
        time_slice<false, false>();
}
SIM_SCENARIO(slice_log) {
    if (sim::pick(2))
        time_slice<true, true>();
    else
        time_slice<true, false>();
}

SIM_SCENARIO(slice_step) {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = 200000;
    sim::configure(o);
    Sys sys;
    unsigned hits[2] = {0, 0};
    auto v = [&hits](Sys &, double) { ++hits[0]; };
    auto b = [&hits](Sys &, double) { return ++hits[1] % 2 == 1; };
    uint64_t every[2], seen[2] = {0, 0};
    for (int k = 0; k < 2; ++k) every[k] = 1 + sim::pick(9);
    hub::callback::StepSlice<decltype(v)> sv(v, every[0]);
    hub::callback::StepSlice<decltype(b)> sb(b, every[1]);
    int n = 4 + sim::pick(60);
    for (int i = 0; i < n; ++i) {
        sys.t += STEP[sim::fault("time-jump", 10, 300)];
        if (sim::pick(12) == 11) {
            int k = sim::pick(2);
            every[k] = 1 + sim::pick(9);
            seen[k] = 0;
            sim::note("reset %d to every %llu", k, (unsigned long long)every[k]);
            k ? sb.reset_slice_params(every[k]) : sv.reset_slice_params(every[k]);
        }
        unsigned h0 = hits[0], h1 = hits[1];
        sv(sys, 0.1);
        bool r = sb(sys, 0.1);
        for (int k = 0; k < 2; ++k) {
            unsigned f = k ? hits[1] - h1 : hits[0] - h0;
            unsigned want = seen[k] % every[k] == 0;
            SIM_CHECK(f == want, "step-slice", "StepSlice(%llu): at step %llu after its start the callback ran %u times, expected %u", (unsigned long long)every[k],
                      (unsigned long long)seen[k], f, want);
            ++seen[k];
        }
        SIM_CHECK(r == (hits[1] != h1 && hits[1] % 2 == 1), "result", "StepSlice returned %d, its operation %s", r, hits[1] == h1 ? "did not run" : "returned the opposite");
    }
}
