// C02: life cycle of a run. Real code: src/simulator.hpp with real particle systems and integrators; the
// environment (callbacks, stop conditions, slow steps, clock, exceptions) is generated.
#include <chrono>
#include "nbody.h"

namespace {
enum { START, OPER, COND, STOP };
struct Log {
    struct E {
        int kind, idx;
        double t, step;
        bool val;
        std::vector<double> st;
    };
    std::vector<E> e;
};
struct Boom {
    int id;
};
// A callback with state of its own: `calls` must count its calls, whatever copies the library makes first.
struct Cb {
    Log *log;
    int kind, idx;
    uint64_t throw_at = ~0ull;
    bool can_throw;
    uint64_t slow = 0;
    uint64_t *outer;
    uint64_t calls = 0;
    template <typename P, typename S>
    void operator()(P &p, S step) {
        ++calls;
        ++*outer;
        SIM_CHECK(calls == *outer, "callback-state", "a callback's own state was lost: call %llu finds it after %llu calls", (unsigned long long)*outer,
                  (unsigned long long)calls - 1);
        if (slow) sim::advance_ns(slow);
        if (uint64_t k = sim::fault("slow-callback", 30, 60)) sim::advance_ns(1000000000ll * k);
        if (uint64_t k = sim::fault("wall-clock-jump", 9, 60)) sim::jump_wall_ns(3600000000000ll * ((int64_t)k - 4));
#ifdef DBG
        sim::note("op t=%.17g step %.6g steps so far %llu", nb::num(p.time()), nb::num(step), (unsigned long long)sim::step());
#endif
        log->e.push_back({kind, idx, nb::num(p.time()), nb::num(step), false, nb::snap(p)});
        if (calls == throw_at || (can_throw && sim::fault("callback-throws", 2, 10))) {
            throw_at = ~0ull;
            throw Boom{idx};
        }
    }
};
struct Cond {
    Log *log;
    int idx, type;
    double limit;
    uint64_t *outer;
    int64_t t0;
    uint64_t calls = 0;
    template <typename P, typename S>
    bool operator()(P &p, S step) {
        ++calls;
        ++*outer;
        SIM_CHECK(calls == *outer, "callback-state", "a stop condition's own state was lost: evaluation %llu finds it after %llu evaluations",
                  (unsigned long long)*outer, (unsigned long long)calls - 1);
        bool r = false;
        switch (type) {
            case 0: r = calls > (uint64_t)limit; break;                                                   // number of steps
            case 1: r = nb::num(p.time()) >= limit; break;                                                // simulated time
            case 2: r = sim::mono_ns() - t0 >= (int64_t)limit; break;                                     // real time
            case 3: r = nb::num(p.pos(0).y) * (limit > 0 ? 1 : -1) > std::fabs(limit); break;             // state
            default: r = false;
        }
        log->e.push_back({COND, idx, nb::num(p.time()), nb::num(step), r, nb::snap(p)});
        return r;
    }
};

template <typename Sim>
void life(bool regular, bool constant) {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = 60000000;
    sim::configure(o);
    auto c = nb::ic(sim::pick(constant && regular ? 3 : 4), 0.05 * sim::pick(10), 0.1 * sim::pick(8));
    double T0 = (double[]){0, 0, 1, -2, 12.5}[sim::pick(5)];
    sim::note("%d bodies, eccentricity %.3g", (int)c.b.size(), 0.0);
    auto ps = nb::particles<Sim>(c);
    Sim s(T0, ps);
    Log log;
    int runs = 1 + sim::pick(3);
    std::vector<double> last = nb::snap(s.particles());
    {
        std::vector<double> want{T0};
        for (auto &b : c.b) {
            for (double x : b.x) want.push_back(x);
            for (double x : b.v) want.push_back(x);
        }
        SIM_CHECK(last.size() == want.size(), "initial-state", "the simulation holds another number of particles than it was given");
    }
    typename Sim::RunArgs args;
    std::vector<std::unique_ptr<uint64_t>> counters;
    auto counter = [&] {
        counters.emplace_back(new uint64_t(0));
        return counters.back().get();
    };
    int ns = 0, no = 0, ne = 0, nc = 0;
    bool fresh = true;
    double end = 0;
    bool has_end = false, sliced_cond = false;
    unsigned maxsteps = 0;
    for (int run = 0; run < runs; ++run) {
        double now = nb::num(s.particles().time());
        double step = c.period * (constant ? 0.01 : 0.02) * (double)(1 + sim::pick(4));
        if (constant && regular) step *= nb::num(s.particles().step_scale()) * 0.5;
        double span = step * (double)(1 + sim::pick(constant ? 24 : 8)) * (sim::pick(2) ? 1 : 0.83);
        if (fresh || sim::pick(2)) {  // new arguments, or the same ones again
            args = typename Sim::RunArgs();
            ns = no = ne = nc = 0;
            has_end = false, sliced_cond = false;
            maxsteps = 0;
            int n = sim::pick(3);
            for (; ns < n; ++ns) args.add_start_point_operation(Cb{&log, START, ns, ~0ull, false, 0, counter()});
            n = 1 + sim::pick(3);
            for (; no < n; ++no)
                args.add_operation(Cb{&log, OPER, no, sim::pick(16) == 15 ? 1 + sim::pick(5) : ~0ull, true, sim::pick(3) == 2 ? 1000000ull * sim::pick(4000) : 0, counter()});
            n = sim::pick(3);
            for (; ne < n; ++ne) args.add_stop_point_operation(Cb{&log, STOP, ne, ~0ull, false, 0, counter()});
            n = sim::pick(4);
            for (; nc < n; ++nc) {
                Cond k{&log, nc, (int)sim::pick(5), 0, counter(), sim::mono_ns()};
                if (k.type == 0) k.limit = sim::pick(12);
                if (k.type == 1) k.limit = now + span * (double)sim::pick(12) / 8;
                if (k.type == 2) k.limit = 1e9 * (double)sim::pick(20);
                if (k.type == 3) k.limit = ((double)sim::pick(9) - 4) * 0.2;
                args.add_stop_condition(k);
            }
            if (sim::pick(6) == 5) {  // one evaluated every few steps only
                maxsteps = 1 + sim::pick(4);
                auto never_first = [n = 0](auto &, auto) mutable { return ++n > 1; };
                args.add_stop_condition(hub::callback::StepSlice<decltype(never_first)>(never_first, maxsteps));
                sliced_cond = true;
            }
            if (!sliced_cond && (nc == 0 || sim::pick(3))) {
                has_end = true;
                end = sim::pick(12) == 11 ? now - span : sim::pick(12) == 11 ? now : now + span;
                if (sim::pick(6) == 5 && now < 0) end = 0;
                args.add_stop_condition(end);
            } else if (!sliced_cond) {  // bound the run
                args.add_stop_condition(Cond{&log, nc, 0, 30, counter(), 0});
                ++nc;
            }
        }
        args.step_size = sim::pick(4) == 3 && !constant ? 0 : step;
        if (!regular && constant && args.step_size == 0) args.step_size = step;
        args.rtol = 1e-10;
        fresh = false;
        sim::note("run %d: t=%.9g end=%s%.9g step=%.6g start/ops/stop/conditions %d/%d/%d/%d", run, now, has_end ? "" : "none ", end, args.step_size, ns, no, ne, nc);
        size_t first = log.e.size();
        bool threw = false;
        int who = -1;
        sim::reset_budget();
        try {
            s.run(args);
        } catch (Boom &b) {
            threw = true;
            who = b.id;
        }
        auto fin = nb::snap(s.particles());
        // ---- judge the recorded history ----
        size_t i = first, n = log.e.size();
        auto at = [&](size_t k) -> Log::E & { return log.e[k]; };
        for (int k = 0; k < ns; ++k, ++i) {
            SIM_CHECK(i < n && at(i).kind == START && at(i).idx == k, "start-order", "start operation %d was not called once and in order", k);
            SIM_CHECK(nb::same(at(i).st, last), "start-state", "a start operation saw a state other than the one the run starts from");
        }
        double tol = has_end ? nb::num(args.time_rtol) * std::max(std::fabs(end), end == 0 ? std::fabs(now) : 0) * (1 + 1e-9) : 0;  // relative to the span if the end is 0
        // time itself is a sum of steps: rounding of the largest value on the way (matters for ends next to 0)
        double round = 1e-15 * std::max(std::fabs(now), std::fabs(end));
        std::vector<double> prev;
        bool stop = false, done = false;
        unsigned states = 0;
        while (i < n && at(i).kind != STOP) {
            // one state: conditions (any order, each at most once), then every operation once in order
            std::vector<double> const &st = at(i).st;
            unsigned mask = 0;
            while (i < n && at(i).kind == COND) {
                SIM_CHECK(!(mask >> at(i).idx & 1), "condition-twice", "stop condition %d was evaluated twice for one state", at(i).idx);
                mask |= 1u << at(i).idx;
                SIM_CHECK(nb::same(at(i).st, st), "skipped-operations", "a step was taken without running the operations on the state before it");
                if (at(i).val) stop = true;
                ++i;
            }
            for (int k = 0; k < no; ++k, ++i) {
                if (threw && i == n) break;
                SIM_CHECK(i < n && at(i).kind == OPER && at(i).idx == k, "operation-order", "operation %d was not called exactly once, in order, at state %u", k, states);
                SIM_CHECK(nb::same(at(i).st, st), "operation-state", "operations of one round saw different states");
            }
            if (prev.empty())
                SIM_CHECK(nb::same(st, last), "continue", "run %d did not start from the state the last one ended in (value %d differs)", run, nb::first_diff(st, last));
            else {
                SIM_CHECK(!done, "step-after-stop", "a step was taken although a stop condition was true");
                if (st[0] == prev[0])
                    sim::fail("state-twice", "the operations ran twice for the state at time %.17g", st[0]);
                bool past = has_end && prev[0] > end;
                if (!past) SIM_CHECK(st[0] > prev[0], "time-backwards", "simulated time went from %.17g to %.17g", prev[0], st[0]);
                if (constant && !regular && args.step_size > 0 && !past)
                    SIM_CHECK(st[0] - prev[0] <= args.step_size * (1 + 1e-9), "step-length", "one step of %.17g advanced time by %.17g: states without callbacks", nb::num(args.step_size),
                              st[0] - prev[0]);
                if (has_end)
                    SIM_CHECK(std::fabs(prev[0] - end) > tol, "step-after-end", "the end time %.17g was reached at %.17g, yet another step was taken", end, prev[0]);
                if (has_end && !regular) SIM_CHECK(st[0] <= end + tol + round || prev[0] > end, "past-end", "time %.17g is past the end %.17g", st[0], end);
            }
            // conditions of the final state are evaluated at most once and may not be at all when the end is reached
            bool at_end = has_end && (std::fabs(st[0] - end) <= tol + round);
            if (!stop && !at_end && !threw)
                for (int k = 0; k < nc; ++k)
                    SIM_CHECK(mask >> k & 1 || (has_end && now >= end), "condition-skipped", "stop condition %d was not evaluated at time %.17g", k, st[0]);
            done = stop;
            prev = st;
            ++states;
        }
        if (threw) {
            SIM_CHECK(i == n, "after-throw", "callbacks ran after an operation threw");
            SIM_CHECK(nb::same(fin, log.e[n - 1].st), "throw-state", "an exception from operation %d changed the state", who);
        } else {
            SIM_CHECK(states > 0, "no-operations", "the run called no operation at all");
            for (int k = 0; k < ne; ++k, ++i) {
                SIM_CHECK(i < n && at(i).kind == STOP && at(i).idx == k, "stop-order", "stop operation %d was not called once and in order, after all regular operations", k);
                SIM_CHECK(nb::same(at(i).st, fin), "stop-state", "a stop operation saw a state other than the final one");
            }
            SIM_CHECK(i == n, "extra-callbacks", "callbacks were called after the stop operations");
            SIM_CHECK(nb::same(prev, fin), "final-operations", "the regular operations did not see the final state");
            if (has_end && !stop && now < end)
                SIM_CHECK(std::fabs(fin[0] - end) <= tol + round + 1e-300, "end-time", "the run ended at %.17g, the requested end is %.17g", fin[0], end);
            if (has_end && now >= end)
                SIM_CHECK(nb::same(fin, last), "ran-backwards", "the requested end %.17g is not after the start %.17g, yet the state changed (now at %.17g)", end, now, fin[0]);
            if (!has_end && !stop && !sliced_cond) sim::fail("ended-early", "the run ended at %.17g, no stop condition was true", fin[0]);
            if (sliced_cond && !stop) SIM_CHECK(run > 0 || states == maxsteps + 1, "sliced-condition", "a condition checked every %u steps became true at the second check, the run ended after %u steps", maxsteps, states - 1);
        }
        last = fin;
    }
}
}  // namespace

SIM_SCENARIO(run_const_sym) {
    if (sim::pick(2))
        life<hub::methods::Const_Sym4<>>(false, true);
    else
        life<hub::methods::Const_Sym2<>>(false, true);
}
SIM_SCENARIO(run_bs) {
    if (sim::pick(2))
        life<hub::methods::Chain_BS<>>(false, false);
    else
        life<hub::methods::BS<>>(false, false);
}
SIM_SCENARIO(run_radau) { life<hub::methods::Radau<>>(false, false); }
SIM_SCENARIO(run_seq) { life<hub::methods::Sym6<>>(false, false); }
SIM_SCENARIO(run_archain) {
    if (sim::pick(2))
        life<hub::methods::AR_Chain_Plus<>>(true, false);
    else
        life<hub::methods::AR_BS<>>(true, false);
}
SIM_SCENARIO(run_const_regu) {
    if (sim::pick(2))
        life<hub::methods::Const_AR_Sym6_Chain<>>(true, true);
    else
        life<hub::methods::Const_AR_Sym4<>>(true, true);
}
