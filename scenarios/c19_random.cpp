// C19: random numbers. Real code: src/rand-generator.hpp; std::random_device is the simulated entropy source.
#include <cmath>
#include "common.h"
#include "rand-generator.hpp"
#include "scattering/cross-section.hpp"

using namespace hub::random;
namespace {
struct Call {
    int fn;
    double a, b, c;
};
// Parameters come from lists, so that the same workload choice gives the same call in every thread.
const double LO[] = {1, 0.5, 3, 1e-6, 10, 1e3};
const double W[] = {1, 1e-3, 7, 1e6, 0.25, 2};
const double SG[] = {1, 0.1, 30, 1e4};
const double PW[] = {-1, -2.35, 0, 1, -1.5, 2.5};
Call pick_call() {
    Call c;
    c.fn = sim::pick(10);
    c.a = LO[sim::pick(6)];
    c.b = W[sim::pick(6)];
    c.c = c.fn == 2 ? PW[sim::pick(6)] : SG[sim::pick(4)];
    return c;
}
double in(double v, double lo, double hi, const char *what) {
    double tol = 1e-11 * std::max(std::fabs(lo), std::fabs(hi));
    SIM_CHECK(v >= lo - tol && v <= hi + tol, "bounds", "%s drew %.17g outside [%.17g, %.17g]", what, v, lo, hi);
    return v;
}
double draw(Call const &k) {
    double lo = k.a, hi = k.a + k.b;
    switch (k.fn) {
        case 0: return in(Uniform(lo - 2, hi), lo - 2, hi, "Uniform");
        case 1: return in(Logarithm(lo, hi), lo, hi, "Logarithm");
        case 2: return in(PowerLaw(k.c, lo, hi), lo, hi, "PowerLaw");
        case 3: {
            double v = Normal(lo, k.c);
            SIM_CHECK(std::isfinite(v), "bounds", "Normal drew %g", v);
            return v;
        }
        case 4: return in(TruncatedNormal(lo - k.c, lo + k.c / 2, lo, k.c), lo - k.c, lo + k.c / 2, "TruncatedNormal");
        case 5: return in(Maxwellian(k.c), 0, 1e300, "Maxwellian");
        case 6: {
            auto [x, y] = Normal2(0.1);
            SIM_CHECK(std::isfinite(x) && std::isfinite(y), "bounds", "Normal2 drew (%g,%g)", x, y);
            return x + 3 * y;
        }
        case 7: return in(TruncatedMaxwellian(k.c * 0.5, k.c * 2, k.c), k.c * 0.5, k.c * 2, "TruncatedMaxwellian");
        case 8: {
            Parameter p(Uniform, lo - 2, hi);
            if (k.b > 0.3) p.set_boundary(lo - 1, hi - 0.2);
            return in(p.draw(), k.b > 0.3 ? lo - 1 : lo - 2, k.b > 0.3 ? hi - 0.2 : hi, "Parameter(Uniform)");
        }
        default: {
            Parameter p(Normal, 0.0, k.c);
            if (k.b == 7) {  // one draw in a hundred lies within
                p.set_boundary(2.2 * k.c, 2.6 * k.c);
                return in(p.draw(), 2.2 * k.c, 2.6 * k.c, "Parameter(Normal)");
            }
            if (k.a > 2) p.set_min(-k.c);
            if (k.a < 2) p.set_max(k.c);
            return in(p.draw(), k.a > 2 ? -k.c : -1e300, k.a < 2 ? k.c : 1e300, "Parameter(Normal)");
        }
    }
}
std::vector<double> sequence(int entropy, std::vector<Call> const &calls) {
    sim::entropy_id(entropy);
    std::vector<double> v;
    for (auto &c : calls) v.push_back(draw(c));
    return v;
}
}  // namespace

SIM_SCENARIO(rng_isolated) {
    sim::Opt o;
    sim::configure(o);
    int threads = 2 + sim::pick(3), len = 1 + sim::pick(6);
    std::vector<std::vector<Call>> calls(threads);
    for (auto &v : calls)
        for (int i = 0; i < len; ++i) v.push_back(pick_call());
    bool same = sim::pick(2);  // two threads with the same calls
    if (same) calls[1] = calls[0];
    int same_entropy = same && sim::pick(2);
    auto ent = [&](int t) { return 100 + (same_entropy && t == 1 ? 0 : t); };
    std::vector<std::vector<double>> got(threads), ref(threads);
    {
        scn::Threads th;
        for (int t = 0; t < threads; ++t) th.go([&, t] { got[t] = sequence(ent(t), calls[t]); });
        th.join();
    }
    // reference: the same thread alone
    sim::quiet(true);
    for (int t = 0; t < threads; ++t) {
        std::thread r([&, t] { ref[t] = sequence(ent(t), calls[t]); });
        r.join();
    }
    sim::quiet(false);
    for (int t = 0; t < threads; ++t)
        for (int i = 0; i < len; ++i)
            SIM_CHECK(got[t][i] == ref[t][i], "not-isolated", "draw %d of thread %d (function %d) is %.17g, alone with the same entropy it is %.17g", i, t, calls[t][i].fn,
                      got[t][i], ref[t][i]);
    // different entropy: not the same sequence
    if (same && !same_entropy) {
        bool eq = true;
        for (int i = 0; i < len; ++i) eq = eq && got[0][i] == got[1][i];
        SIM_CHECK(!eq, "shared-seed", "two threads with different entropy drew the same sequence");
    }
}
// Parameters: every distribution, with and without bounds, from several threads sharing one object.
SIM_SCENARIO(rng_parameter) {
    sim::Opt o;
    o.budget = 400000;
    o.horizon = 300000;
    sim::configure(o);
    double c = SG[sim::pick(4)];
    int kind = sim::pick(6);
    auto make = [&]() -> Parameter {
        switch (kind) {
            case 0: return Parameter(Fixed, -c);
            case 1: return Parameter(Fixed, 0.0);
            case 2: return Parameter(Uniform, -2 * c, -c);
            case 3: return Parameter(Normal, -50 * c, c);
            case 4: return Parameter(Logarithm, c, 2 * c);
            default: return Parameter(PowerLaw, -2.0, c, 2 * c);
        }
    };
    const double lo[] = {-c, 0, -2 * c, -100 * c, c, c}, hi[] = {-c, 0, -c, 0, 2 * c, 2 * c};
    Parameter p = make();
    int threads = 1 + sim::pick(3), n = 1 + sim::pick(4);
    scn::Threads th;
    for (int t = 0; t < threads; ++t)
        th.go([&, t] {
            sim::entropy_id(t);
            for (int i = 0; i < n; ++i) in(p.draw(), lo[kind], hi[kind], "an unbounded Parameter");
        });
    th.join();
}
// What the library itself draws: random angles and phases of orbits, incident orbits of scattering experiments. Experiments
// on several threads are those a thread has alone, and orbits lie within what was asked for.
namespace {
using namespace hub::orbit;
struct Ask {
    int kind;
    double m1, m2, e, b;
};
void show(std::vector<double> &v, KeplerOrbit<double> const &k) {
    for (double x : {k.p, k.e, k.i, k.Omega, k.omega, k.nu}) {
        SIM_CHECK(std::isfinite(x), "bounds", "an orbit has the element %g", x);
        v.push_back(x);
    }
}
std::vector<double> orbits(int entropy, std::vector<Ask> const &asks) {
    sim::entropy_id(entropy);
    std::vector<double> v;
    double const pi = hub::consts::pi;
    for (auto &q : asks) {
        if (q.kind == 0) {  // everything random
            Elliptic o(q.m1, q.m2, q.b, q.e, isotherm, isotherm, isotherm, isotherm);
            show(v, o);
            in(o.i, 0, pi, "inclination"), in(o.Omega, -pi, pi, "Omega"), in(o.omega, -pi, pi, "omega");
        } else if (q.kind == 1) {  // one angle random, the others stay what they were
            Elliptic o(q.m1, q.m2, q.b, q.e, 0.3, isotherm, -0.5, 1.25);
            show(v, o);
            SIM_CHECK(o.i == 0.3 && o.omega == -0.5 && o.nu == 1.25, "bounds", "a given angle was not kept");
            o.shuffle_i();
            o.shuffle_nu();
            show(v, o);
            SIM_CHECK(o.omega == -0.5 && o.m1 == q.m1 && o.m2 == q.m2, "bounds", "a given element was not kept");
        } else {  // a scattering experiment
            double vinf = 0.5 + q.e, r = 50 * q.b;
            auto o = hub::scattering::incident_orbit(q.m1, q.m2, vinf, q.b, r);
            show(v, o);
            in(o.b, 0, q.b, "impact parameter");
            SIM_CHECK(o.e >= 1 && o.nu <= 0, "bounds", "an incident orbit has e=%g, nu=%g", o.e, o.nu);
            double at = o.p / (1 + o.e * std::cos(o.nu));
            SIM_CHECK(std::fabs(at - r) <= 1e-6 * r, "bounds", "an incident orbit starts at %.17g, not at %.17g", at, r);
        }
    }
    return v;
}
}  // namespace
SIM_SCENARIO(rng_orbits) {
    sim::Opt o;
    sim::configure(o);
    int threads = 2 + sim::pick(3), len = 1 + sim::pick(4);
    std::vector<std::vector<Ask>> asks(threads);
    const double M[] = {1, 1e-3, 30}, E[] = {0, 0.1, 0.5, 0.9}, B[] = {1, 0.2, 40};
    for (auto &v : asks)
        for (int i = 0; i < len; ++i) {
            Ask a;
            a.kind = sim::pick(3), a.m1 = M[sim::pick(3)], a.m2 = M[sim::pick(3)], a.e = E[sim::pick(4)], a.b = B[sim::pick(3)];
            v.push_back(a);
        }
    std::vector<std::vector<double>> got(threads), ref(threads);
    scn::Threads th;
    for (int t = 0; t < threads; ++t) th.go([&, t] { got[t] = orbits(100 + t, asks[t]); });
    th.join();
    sim::quiet(true);
    for (int t = 0; t < threads; ++t) std::thread([&, t] { ref[t] = orbits(100 + t, asks[t]); }).join();
    sim::quiet(false);
    for (int t = 0; t < threads; ++t)
        SIM_CHECK(got[t] == ref[t], "not-isolated", "the orbits of thread %d are not those it draws alone with the same entropy", t);
}
