// C05: stopwatch. Real code: src/tools/timer.hpp reading the simulated clocks.
#include <chrono>
#include <cmath>
#include "common.h"
#include "tools/timer.hpp"

namespace {
const int64_t SPAN[] = {0, 1, 999, 1000000, 999999999, 1000000000, 1500000001, 60000000000ll, 86400000000000ll, 2592000000000000ll};
// The reference: running intervals in nanoseconds. Reading the clock itself takes simulated time, so the
// reference knows an interval [lo,hi] for every clock reading.
struct Model {
    int64_t lo = 0, hi = 0;  // accumulated
    bool run = false;
    int64_t s_lo = 0, s_hi = 0;
};
}  // namespace

SIM_SCENARIO(timer) {
    sim::Opt o;
    o.clock = true;
    o.preempt = false;
    sim::configure(o);
    hub::tools::Timer t[2];
    Model m[2];
    double last[2] = {0, 0};
    int n = 1 + sim::pick(24);
    for (int i = 0; i < n; ++i) {
        int k = sim::pick(4) == 3;  // mostly the first stopwatch; the second must not disturb it
        int op = sim::pick(7);
        int64_t a = sim::mono_ns();
        switch (op) {
            case 0:
                sim::note("start %d", k);
                t[k].start();
                if (!m[k].run) {
                    m[k].run = true;
                    m[k].s_lo = a, m[k].s_hi = sim::mono_ns();
                }
                break;
            case 1:
            case 2: {
                int64_t d = SPAN[sim::pick(10)];
                if (sim::pick(2)) d += sim::pick(1000000007);
                sim::note("advance %lld", (long long)d);
                sim::advance_ns(d);
                break;
            }
            case 3:
                sim::note("pause %d", k);
                t[k].pause();
                if (m[k].run) {
                    m[k].lo += a - m[k].s_hi;
                    m[k].hi += sim::mono_ns() - m[k].s_lo;
                    m[k].run = false;
                }
                break;
            case 4:
                sim::note("reset %d", k);
                t[k].reset();
                m[k] = Model();
                last[k] = 0;
                break;
            case 5: {
                int64_t d = (int64_t)SPAN[sim::pick(10)] * (sim::pick(2) ? 1 : -1);
                sim::note("wall clock jumps by %lld", (long long)d);
                sim::jump_wall_ns(d);
                break;
            }
            default: {
                double x = t[k].get_time();
                int64_t lo = m[k].lo, hi = m[k].hi;
                if (m[k].run) lo += a - m[k].s_hi, hi += sim::mono_ns() - m[k].s_lo;
                double tol = 1e-9 + 1e-12 * hi * 1e-9;
                sim::note("read %d: %.9f", k, x);
                SIM_CHECK(x >= lo * 1e-9 - tol && x <= hi * 1e-9 + tol, "elapsed", "stopwatch reads %.9f s, it ran for %.9f s", x, lo * 1e-9);
                SIM_CHECK(x >= last[k] - tol, "decreased", "stopwatch went from %.9f back to %.9f without a reset", last[k], x);
                last[k] = x;
            }
        }
    }
}
