// C03: rejected and retried steps, and stop/resume. Real code: BulirschStoer, IAS15, SequentOdeIterator with the
// particle systems of the library. Fault injection goes through the iterators' own seams: the error estimator and the
// step controller are template parameters, so a wrapped one rejects attempts the real one would accept.
// Every accepted step is compared with an independent integration of the same step.
#include "nbody.h"
#include "reference.h"

namespace {
struct Inject {
    bool on = false;
    double step_error = 0;  // what the controller of IAS15 was told about the last attempt (accepted up to a bound)
    bool converged = true;  // the estimator's own verdict on the last attempt
    unsigned rate = 0;
    int budget = 0;       // rejections left in this step
    uint64_t injected = 0;
} inj;
ref::Law law;

template <typename Base>
struct Estimator : Base {
    using Base::Base;
    template <typename... A>
    auto error(A const &...a) -> decltype(Base::error(a...)) {
        auto e = Base::error(a...);
        inj.converged = e <= 1;
        if (inj.on && inj.budget > 0)
            if (uint64_t k = sim::fault("step-rejected", 6, inj.rate)) {
                --inj.budget, ++inj.injected;
                double f[] = {0, 3, 50, 1e4, 1e9, 1e30};
                return std::max(e, decltype(e)(f[k]));
            }
        return e;
    }
};
template <typename Base>
struct Controller : Base {
    template <typename U>
    auto next(size_t order, U const &errors) const {
        auto r = Base::next(order, errors);
        inj.step_error = nb::num(errors);
        if (inj.on && inj.budget > 0)
            if (uint64_t k = sim::fault("step-rejected", 4, inj.rate)) {
                --inj.budget, ++inj.injected;
                double f[] = {0, 0.24, 0.1, 0.02};
                return std::min(r, decltype(r)(f[k]));
            }
        return r;
    }
};
struct Drag {
    constexpr static bool vel_dependent{true};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i] -= p.vel(i) * law.drag;
    }
};
struct Trap {
    constexpr static bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i] -= p.pos(i) * law.trap;
    }
};
using T1 = hub::Types<double, hub::Vec3>;
using T2 = hub::Types<hub::double_k, hub::Vec3>;
template <typename T>
using PP = hub::particles::PointParticles<T>;
using F0 = hub::force::Interactions<hub::force::NewtonianGrav>;
using FD = hub::force::Interactions<hub::force::NewtonianGrav, Drag>;
using FT = hub::force::Interactions<hub::force::NewtonianGrav, Trap>;
using FDT = hub::force::Interactions<hub::force::NewtonianGrav, Drag, Trap>;
using WO = Estimator<hub::ode::WorstOffender<T1>>;
using MR = hub::ode::MaxRatioError<T1>;
using PID = hub::ode::PIDController<T1>;
template <typename T>
using BS = hub::ode::BulirschStoer<hub::integrator::LeapFrogDKD<T>, WO, PID>;
template <typename T>
using IAS = hub::ode::IAS15<hub::integrator::GaussRadau<T>, MR, Controller<PID>>;
template <typename I>
using SEQ = hub::ode::SequentOdeIterator<I, WO, PID>;

struct Judge {
    ref::Sys sys;
    double rtol;
    double slack;
    bool carry;      // auxiliary variables of the system carry the error of earlier steps on
    bool must_conv;  // the iterator accepts steps that did not converge: these are not judged
    double carried = 0, prev_dt = 1;
    std::vector<double> prev;
    uint64_t steps = 0, judged = 0;
    // prev -> now must be the trajectory of the system
    void check(std::vector<double> const &now) {
        if (!prev.empty() && std::memcmp(&prev[0], &now[0], prev.size() * sizeof(double))) {
            ++steps;
            int n = sys.n;
            ref::real y[6 * ref::Sys::MAX], y0[6 * ref::Sys::MAX];
            auto load = [&](ref::real *to, std::vector<double> const &s) {
                for (int i = 0; i < n; ++i)
                    for (int k = 0; k < 3; ++k) to[3 * i + k] = s[1 + 6 * i + k], to[3 * n + 3 * i + k] = s[1 + 6 * i + 3 + k];
            };
            load(y0, prev);
            std::memcpy(y, y0, sizeof y);
            double dt = now[0] - prev[0];
            prev_dt = std::fabs(dt);
            for (double d : now) SIM_CHECK(std::isfinite(d), "trajectory", "the state after step %llu is not finite", (unsigned long long)steps);
            sim::quiet(true);
            bool ok = ref::advance(sys, y, dt);
            ref::real amax = std::max(ref::max_acc(sys, y0), ref::max_acc(sys, y));
            sim::quiet(false);
            if (carry) carried += rtol * 0.3;
            double const rel = (rtol + carried) * slack + (inj.step_error > 1 ? 1e-15 * std::pow(inj.step_error, 2.3) : 0);
            if (ok && must_conv && !inj.converged) {
                sim::probe("accepted-unconverged");
                carried += 1;
                if (carry) ok = false;
            } else if (ok) {
                ++judged;
                ref::real z[6 * ref::Sys::MAX], sx = 0, sv = 0;
                load(z, now);
                for (int i = 0; i < 3 * n; ++i)
                    sx = std::max({sx, fabsl(y0[i]), fabsl(y[i])}), sv = std::max({sv, fabsl(y0[3 * n + i]), fabsl(y[3 * n + i])});
                ref::real tt = std::max({std::fabs(now[0]), std::fabs(prev[0]), std::fabs(dt)}) * (rel + 1e-15) + 1e-16;
                ref::real ex = 0, ev = 0;
                for (int i = 0; i < 3 * n; ++i) ex = std::max(ex, fabsl(z[i] - y[i])), ev = std::max(ev, fabsl(z[3 * n + i] - y[3 * n + i]));
                // errors of positions show up in velocities through the gradient of the field, and the other way round
                ref::real grad = amax / 0.02L;
                ref::real tx = sx * (rel + 1e-12) + sv * tt + std::fabs(dt) * sv * (rel + 1e-12);
                ref::real tv = sv * (rel + 1e-12) + amax * tt + std::min((ref::real)std::fabs(dt), 1.0L) * grad * tx;
#ifdef DBG
                sim::note("step %llu t=%.15g dt=%.6g ex %.2Lg/%.2Lg ev %.2Lg/%.2Lg inj %d", (unsigned long long)steps, now[0], dt, ex, tx, ev, tv, (int)inj.injected);
#endif
                SIM_CHECK(ex <= tx && ev <= tv, "trajectory",
                          "accepted step %llu from t=%.12g to t=%.12g left the trajectory: positions off by %.3Lg, velocities by %.3Lg (%llu rejections injected so far)",
                          (unsigned long long)steps, prev[0], now[0], ex, ev, (unsigned long long)inj.injected);
            } else {
                sim::probe("step-too-hard-for-the-reference");
            }
        }
        prev = now;
        inj.budget = prev_dt < 1e-5 ? 0 : 6;  // rejections without end would shrink the step to nothing
    }
};

template <typename SimT, typename F>
void reject(double slack, double rtol_max, double step_max, bool hard, double span_max) {
    constexpr bool regu = !std::is_same_v<typename SimT::ParticleSystem, hub::system::SimpleSystem<PP<typename SimT::TypeSet>, F>> &&
                          !std::is_same_v<typename SimT::ParticleSystem, hub::system::ChainSystem<PP<typename SimT::TypeSet>, F>>;
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = o.horizon = 400000000;
    sim::configure(o);
    sim::expect_exit([] { sim::fail("gave-up", "the integration gave up and ended the program"); });
    inj = Inject();
    law = ref::Law();
    if (F::ext_vel_dep) law.drag = 0.01 * (double)(1 + sim::pick(5));
    if (F::ext_vel_indep) law.trap = 0.02 * (double)(1 + sim::pick(5));
    int kind = sim::pick(4);
    double ecc = (double[]){0.1, 0, 0.4, 0.7, 0.9}[sim::pick(hard ? 5 : 3)];
    auto c = nb::ic(kind, ecc, 0.1 * sim::pick(8));
    double T0 = (double[]){0, 0, 1, -3, 20}[sim::pick(5)];
    SimT s(T0, nb::particles<SimT>(c));
    Judge j;
    j.sys.n = (int)c.b.size();
    for (int i = 0; i < j.sys.n; ++i) j.sys.m[i] = c.b[i].m;
    j.sys.law = law;
    j.slack = slack;
    j.carry = regu;
    j.must_conv = !hard;
    inj.rate = (unsigned[]){0, 30, 150, 400}[sim::pick(4)];
    int segments = 1 + (int)sim::pick(4);
    // a simulation may be copied at any stop and both go on
    std::unique_ptr<SimT> copy;
    for (int g = 0; g < segments; ++g) {
        typename SimT::RunArgs a;
        double now = nb::num(s.particles().time());
        double span = c.period * (double[]){0.3, 0.05, 1.1, 0.6}[sim::pick(4)];
        if (span > span_max * c.period) span = span_max * c.period;
        j.rtol = (double[]){1e-13, 1e-11, 1e-9}[sim::pick(3)];
        if (j.rtol > rtol_max) j.rtol = rtol_max;
        a.rtol = j.rtol;
        double first = c.period * (double[]){0.01, 0, 0.1, 1, 3, 0.0003, 0.03}[sim::pick(7)];
        if (first > c.period * step_max) first = c.period * step_max;
        if (sim::pick(2)) first *= nb::num(s.particles().step_scale());
        a.step_size = first;
        uint64_t stop_after = sim::pick(3) ? (span_max < 1 ? 40 : 200) : 1 + sim::pick(6);
        uint64_t calls = 0;
        double start = now;
        a.add_stop_condition(now + span);
        a.add_stop_condition([&](auto &p, auto) { return calls > stop_after; });
        a.add_operation([&](auto &p, auto) {
            ++calls;
            double t = nb::num(p.time());
            SIM_CHECK(t >= start - 1e-9 * std::fabs(start), "time", "time went from %.15g back to %.15g", start, t);
            j.check(nb::snap(p));
        });
        inj.on = true;
        s.run(a);
        inj.on = false;
        (void)now;
        if (segments > 1 && !sim::pick(3)) {
            SimT t(s);
            s = t;
        }
    }
    sim::ctr_add(0, j.judged);
    if (inj.injected) sim::probe("steps-rejected-by-injection");
}
template <typename T, typename F>
using Simple = hub::system::SimpleSystem<PP<T>, F>;
template <typename T, typename F>
using Regu = hub::system::RegularizedSystem<PP<T>, F>;
template <typename T, typename F>
using Chain = hub::system::ChainSystem<PP<T>, F>;
template <typename T, typename F>
using ARch = hub::system::ARchainSystem<PP<T>, F>;
template <typename T, typename F>
using ReguT = hub::system::RegularizedSystem<PP<T>, F, hub::system::ReguType::TTL>;
template <typename T, typename F>
using ARchT = hub::system::ARchainSystem<PP<T>, F, hub::system::ReguType::TTL>;
template <typename T, typename F>
using ReguN = hub::system::RegularizedSystem<PP<T>, F, hub::system::ReguType::None>;
template <template <typename, typename> typename S, typename T, typename F, typename It>
void go(double slack, double rtol_max, double step_max, bool hard, double span_max = 9) {
    reject<hub::Simulator<S<T, F>, It>, F>(slack, rtol_max, step_max, hard, span_max);
}
}  // namespace

SIM_SCENARIO(reject_bs) {
    switch (sim::pick(4)) {
        case 0: return go<Simple, T1, F0, BS<T1>>(10, 1, 3, true);
        case 1: return go<Simple, T1, FDT, BS<T1>>(10, 1, 3, true);
        case 2: return go<Simple, T2, FD, BS<T2>>(10, 1, 3, true);
        default: return go<Simple, T1, FT, BS<T1>>(10, 1, 3, true);
    }
}
SIM_SCENARIO(reject_bs_regu) {
    switch (sim::pick(4)) {
        case 0: return go<Regu, T1, F0, BS<T1>>(10, 1, 3, true);
        case 1: return go<Regu, T1, FDT, BS<T1>>(10, 1, 3, true);
        case 2: return go<ARch, T1, F0, BS<T1>>(10, 1, 3, true);
        default: return go<ARch, T2, FDT, BS<T2>>(10, 1, 3, true);
    }
}
SIM_SCENARIO(reject_bs_ttl) {
    switch (sim::pick(4)) {
        case 0: return go<ReguT, T1, F0, BS<T1>>(10, 1, 3, true);
        case 1: return go<ReguN, T1, FDT, BS<T1>>(10, 1, 3, true);
        case 2: return go<ARchT, T1, F0, BS<T1>>(10, 1, 3, true);
        default: return go<ARchT, T1, FDT, BS<T1>>(10, 1, 3, true);
    }
}
SIM_SCENARIO(reject_bs_chain) {
    switch (sim::pick(2)) {
        case 0: return go<Chain, T1, F0, BS<T1>>(10, 1, 3, true);
        default: return go<Chain, T1, FDT, BS<T1>>(10, 1, 3, true);
    }
}
SIM_SCENARIO(reject_radau) {
    switch (sim::pick(4)) {
        case 0: return go<Simple, T1, F0, IAS<T1>>(2, 1e-13, 3, true, 0.3);
        case 1: return go<Simple, T1, FDT, IAS<T1>>(2, 1e-13, 3, true, 0.3);
        case 2: return go<Regu, T1, F0, IAS<T1>>(2, 1e-13, 3, true, 0.3);
        default: return go<ARch, T1, F0, IAS<T1>>(2, 1e-13, 3, true, 0.3);
    }
}
SIM_SCENARIO(reject_seq) {
    switch (sim::pick(4)) {
        case 0: return go<Simple, T1, F0, SEQ<hub::integrator::Symplectic6th<T1>>>(100, 1e-9, 0.03, false, 0.3);
        case 1: return go<Simple, T1, F0, SEQ<hub::integrator::Symplectic8th<T1>>>(100, 1e-9, 0.03, false, 0.3);
        case 2: return go<Regu, T1, F0, SEQ<hub::integrator::Symplectic6th<T1>>>(100, 1e-9, 0.03, false, 0.3);
        default: return go<ARch, T1, F0, SEQ<hub::integrator::Symplectic10th<T1>>>(100, 1e-9, 0.03, false, 0.3);
    }
}

// The general form of the extrapolation integrator: y' = f(y, t) with an explicit time dependence.
SIM_SCENARIO(reject_ode) {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = o.horizon = 100000000;
    sim::configure(o);
    sim::expect_exit([] { sim::fail("gave-up", "the integration gave up and ended the program"); });
    inj = Inject();
    inj.rate = (unsigned[]){0, 30, 150, 400}[sim::pick(4)];
    using It = BS<T1>;
    It it;
    double rtol = (double[]){1e-12, 1e-10, 1e-8}[sim::pick(3)];
    it.set_rtol(rtol);
    it.set_atol(rtol * 1e-2);
    double w = 0.5 * (double)(1 + sim::pick(4)), nu = (double[]){0.7, 1.3, 3.1}[sim::pick(3)] + 0.11, amp = (double[]){1, 0, 5}[sim::pick(3)];
    double t0 = (double[]){0, 2, -7}[sim::pick(3)];
    int dim = 1 + (int)sim::pick(3);
    // x'' = -w^2 x + amp cos(nu t):  x = A cos(w t) + B sin(w t) + C cos(nu t)
    double C = amp / (w * w - nu * nu), A = 1 - 0.3 * (double)sim::pick(3), B = 0.2 * (double)sim::pick(4);
    auto sol = [&](double t, int d, double &x, double &v) {
        double a = A * (1 + d), b = B - d;
        x = a * std::cos(w * t) + b * std::sin(w * t) + C * std::cos(nu * t);
        v = -a * w * std::sin(w * t) + b * w * std::cos(w * t) - C * nu * std::sin(nu * t);
    };
    typename It::StateScalarArray y(2 * dim);
    double t = t0;
    for (int d = 0; d < dim; ++d) sol(t, d, y[2 * d], y[2 * d + 1]);
    double h = (double[]){0.1, 0.01, 1, 5, 20}[sim::pick(5)];
    int n = 1 + (int)sim::pick(25);
    inj.on = true;
    for (int k = 0; k < n; ++k) {
        inj.budget = 5;
        double before = t;
        double next = it.iterate(
            [&](auto const &in, auto &out, double at) {
                for (int d = 0; d < dim; ++d) {
                    out[2 * d] = in[2 * d + 1];
                    out[2 * d + 1] = -w * w * in[2 * d] + amp * std::cos(nu * at);
                }
            },
            y, t, h);
        SIM_CHECK(t > before && t <= before + h * (1 + 1e-9), "time", "a step of %.12g advanced the time from %.12g by %.12g", h, before, t - before);
        sim::note("rtol %g h %g t %.12g err0 %.3g inj %d w %g nu %g", rtol, h, t, 0.0, (int)inj.injected, w, nu);
        double scale = std::fabs(A) * (dim + 1) + std::fabs(B) + dim + std::fabs(C);
        for (int d = 0; d < dim; ++d) {
            double x, v;
            sol(t, d, x, v);
            double tol = scale * (1 + w + nu) * (rtol * 30 * (k + 1) + 1e-12 * (k + 1));
            SIM_CHECK(std::fabs(x - y[2 * d]) <= tol && std::fabs(v - y[2 * d + 1]) <= tol * (1 + w + nu), "trajectory",
                      "step %d to t=%.12g: solution is (%.12g, %.12g), integration delivered (%.12g, %.12g)", k, t, x, v, y[2 * d], y[2 * d + 1]);
        }
        SIM_CHECK(std::isfinite(next) && next > 0, "step", "next step size is %g", next);
        h = sim::pick(4) ? next : (double[]){0.1, 5, 0.001}[sim::pick(3)];
    }
    inj.on = false;
    if (inj.injected) sim::probe("steps-rejected-by-injection");
}
