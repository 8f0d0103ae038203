// C21: substep-parallel extrapolation. Real code: BulirschStoer with BS_SUBSTEP_PARALLEL, its task executor
// (src/taskflow), the simulator and particle systems. The reference is the same library built without the switch,
// linked into the same binary under another name (this file compiled twice, with hub renamed).
#ifdef SERIAL
#define hub hub_serial
#else
#define BS_SUBSTEP_PARALLEL
#endif
#include "nbody.h"

struct Plan21 {
    int method = 0;
    bool copied = false;
    nb::Ic c;
    double t0 = 0, step = 0, rtol = 1e-9;
    std::vector<double> ends;
};
struct Job21 {
    std::vector<double> out;
    virtual ~Job21() = default;
    virtual void leg(int r) = 0;
};
namespace {
struct Rec {
    std::vector<double> *out;
    template <typename P, typename S>
    void operator()(P &p, S h) {
        auto v = nb::snap(p);
        out->insert(out->end(), v.begin(), v.end());
        out->push_back(nb::num(h));
    }
};
template <typename Sim>
struct JobOf : Job21 {
    Plan21 p;
    std::unique_ptr<Sim> s;
    typename Sim::RunArgs args;
    explicit JobOf(Plan21 const &q) : p(q) {
        auto ps = nb::particles<Sim>(p.c);
        s.reset(new Sim(p.t0, ps));
        args.add_operation(Rec{&out});
        args.step_size = p.step;
        args.rtol = p.rtol;
    }
    void leg(int r) override {
        args.add_stop_condition(p.ends[r]);
        s->run(args);
        if constexpr (std::is_copy_constructible_v<Sim>)
            if (p.copied && r == 0) s = std::make_unique<Sim>(*s);
    }
};
Job21 *make(Plan21 const &p) {
    using namespace hub::methods;
    switch (p.method) {
        case 0: return new JobOf<BS<>>(p);
        case 1: return new JobOf<Chain_BS<>>(p);
        case 2: return new JobOf<AR_BS<>>(p);
        case 3: return new JobOf<AR_Chain<>>(p);
        default: return new JobOf<BS_Plus<>>(p);
    }
}
}  // namespace
#ifdef SERIAL
Job21 *serial_job(Plan21 const &p) { return make(p); }
#else
Job21 *serial_job(Plan21 const &p);
namespace {
std::vector<double> serial(Plan21 const &p) {
    sim::quiet(true);
    std::unique_ptr<Job21> j(serial_job(p));
    for (size_t r = 0; r < p.ends.size(); ++r) j->leg((int)r);
    auto o = j->out;
    j.reset();
    sim::quiet(false);
    return o;
}
std::vector<Plan21> plans(int n) {
    std::vector<Plan21> v;
    for (int i = 0; i < n; ++i) {
        Plan21 p;
        if (i && sim::pick(3) == 2)
            p = v[sim::pick(i)];
        else {
            p.method = (int)sim::pick(5);
            p.c = nb::ic((int)sim::pick(4), 0.05 * (double)sim::pick(12), 0.1 * (double)sim::pick(5));
            p.t0 = (double)sim::pick(2);
            p.step = p.c.period * 0.01 * (double)(1 + sim::pick(6));
            p.rtol = sim::pick(2) ? 1e-9 : 1e-13;
            p.copied = sim::pick(4) == 3;
            int legs = 1 + (int)sim::pick(2);
            double t = p.t0;
            for (int k = 0; k < legs; ++k) p.ends.push_back(t += p.step * (double)(1 + sim::pick(4)));
        }
        v.push_back(p);
    }
    return v;
}
void check(int i, Plan21 const &p, std::vector<double> const &want, std::vector<double> const &got) {
    int d = nb::first_diff(got, want), rec = 2 + 6 * (int)p.c.b.size();
    if (d >= 0)
        sim::fail("differs", "simulation %d (method %d): with substep parallelism state %d of %d differs from the serial build's (value %d: %.17g instead of %.17g)", i, p.method, d / rec, (int)got.size() / rec,
                  d % rec, d < (int)got.size() ? got[d] : 0., d < (int)want.size() ? want[d] : 0.);
}
}  // namespace
SIM_SCENARIO(sub_order) {
    sim::Opt o;
    o.budget = 400000000, o.horizon = 300000000;
    sim::configure(o);
    auto ps = plans(1 + (int)sim::pick(2));
    std::vector<std::vector<double>> want;
    for (auto &p : ps) want.push_back(serial(p));
    std::vector<std::unique_ptr<Job21>> js(ps.size());
    if (sim::pick(2)) {  // leg by leg in turn
        for (size_t i = 0; i < ps.size(); ++i) js[i].reset(make(ps[i]));
        for (size_t r = 0; r < 2; ++r)
            for (size_t i = 0; i < ps.size(); ++i)
                if (r < ps[i].ends.size()) js[i]->leg((int)r);
        for (size_t i = 0; i < ps.size(); ++i) check((int)i, ps[i], want[i], js[i]->out);
    } else
        for (size_t i = 0; i < ps.size(); ++i) {
            std::unique_ptr<Job21> j(make(ps[i]));
            for (size_t r = 0; r < ps[i].ends.size(); ++r) j->leg((int)r);
            check((int)i, ps[i], want[i], j->out);
        }
}
SIM_SCENARIO(sub_threads) {
    sim::Opt o;
    o.budget = 400000000, o.horizon = 300000000;
    sim::configure(o);
    auto ps = plans(2);
    std::vector<std::vector<double>> want, got(ps.size());
    for (auto &p : ps) want.push_back(serial(p));
    scn::Threads th;
    for (size_t i = 0; i < ps.size(); ++i)
        th.go([&, i] {
            std::unique_ptr<Job21> j(make(ps[i]));
            for (size_t r = 0; r < ps[i].ends.size(); ++r) j->leg((int)r);
            got[i] = j->out;
        });
    th.join();
    for (size_t i = 0; i < ps.size(); ++i) check((int)i, ps[i], want[i], got[i]);
}
#endif
