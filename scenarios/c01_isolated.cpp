// C01: simulations of one process never influence one another. Real code: simulator, particle systems, integrators,
// forces, writers. Each simulation is first run alone in a pristine copy of the process (sim::fresh); then all of them run
// in this process in some order, in slices, or on threads of their own, and everything observable must be the same bytes.
#include <fstream>
#include "nbody.h"
#include "interaction/post-newtonian.hpp"
#include "interaction/static-gas-drag.hpp"
#include "interaction/tidal.hpp"
#include "particles/drag-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/tide-particles.hpp"

namespace {
using namespace hub::callback;
struct Plan {
    int id = 0, method = 0, files = 0;
    bool copied = false;  // the simulation is copied half-way, and the copy goes on
    bool energy[2] = {false, false};
    int how[2] = {0, 0};
    nb::Ic c;
    double t0 = 0, step = 0, rtol = 1e-9, atol = 0, time_rtol = 1e-8;
    bool first_step = true;  // given, not chosen by the library
    std::vector<double> ends;
    std::string path(int i) const { return "/sim/s" + std::to_string(id) + "_" + std::to_string(i) + ".txt"; }
};
std::function<void()> g_inside;  // what else a callback of a simulation does
struct Rec {                     // everything callbacks saw
    std::string *out;
    template <typename P, typename S>
    void operator()(P &p, S h) {
        if (g_inside) g_inside();
        auto v = nb::snap(p);
        v.push_back(nb::num(h));
        out->append((char const *)v.data(), v.size() * sizeof(double));
    }
};
// One simulation, run by run.
struct Job {
    std::string out;
    virtual ~Job() = default;
    virtual void leg(int r) = 0;
};
template <typename Sim>
struct JobOf : Job {
    Plan p;
    std::unique_ptr<Sim> s;
    typename Sim::RunArgs args;
    explicit JobOf(Plan const &q) : p(q) {
        auto ps = nb::particles<Sim>(p.c);
        s.reset(new Sim(p.t0, ps));
        args.add_start_point_operation(Rec{&out});
        args.add_operation(Rec{&out});
        args.add_stop_point_operation(Rec{&out});
        for (int i = 0; i < p.files; ++i) {
            auto add = [&](auto w) {
                if (p.how[i] == 1)
                    args.add_operation(StepSlice<decltype(w)>(w, 2));
                else if (p.how[i] == 2)
                    args.add_operation(TimeSlice<decltype(w), double>(w, p.t0, p.ends.back(), 3));
                else
                    args.add_operation(w);
            };
            if (p.energy[i])
                add(EnergyErrWriter(p.path(i)));
            else
                add(DefaultWriter(p.path(i)));
        }
        if (p.first_step) args.step_size = p.step;
        args.rtol = p.rtol;
        args.atol = p.atol;
        args.time_rtol = p.time_rtol;
    }
    void leg(int r) override {
        args.add_stop_condition(p.ends[r]);
        s->run(args);
        if (p.copied && r == 0) {
            std::unique_ptr<Sim> o(new Sim(*s));
            s.swap(o);
            if (p.id % 2 && p.ends.size() > 1) {  // the original runs on as well
                typename Sim::RunArgs a;
                a.step_size = p.step;
                a.add_stop_condition(p.ends[1]);
                o->run(a);
            }
        }
    }
};
#ifndef GROUP
#define GROUP 0
#endif
template <template <typename, template <typename> typename> typename M>
using PN = M<hub::force::Interactions<hub::force::NewtonianGrav, hub::force::PN1, hub::force::PN2, hub::force::PN2p5>, hub::DefaultParticles>;
#if GROUP == 3
template <typename T>
using Tides = hub::particles::TideParticles<T>;
template <typename T>
using Drag = hub::particles::DragParticles<T>;
template <typename T>
using Sized = hub::particles::SizeParticles<T>;
using TidalForce = hub::force::Interactions<hub::force::NewtonianGrav, hub::force::Tidal>;
using DragForce = hub::force::Interactions<hub::force::NewtonianGrav, hub::force::StaticGasDrag>;
using DiskForce = hub::force::Interactions<hub::force::NewtonianGrav, hub::force::MagnetoDisk>;
#endif
std::unique_ptr<Job> make(Plan const &p) {
    using namespace hub::methods;
    switch (p.method) {
#if GROUP == 0
        case 0: return std::make_unique<JobOf<Const_Sym4<>>>(p);
        case 1: return std::make_unique<JobOf<BS<>>>(p);
        case 2: return std::make_unique<JobOf<Radau<>>>(p);
        default: return std::make_unique<JobOf<Sym6<>>>(p);
#elif GROUP == 1
        case 0: return std::make_unique<JobOf<Const_AR_Sym6_Chain<>>>(p);
        case 1: return std::make_unique<JobOf<Chain_BS<>>>(p);
        case 2: return std::make_unique<JobOf<AR_BS<>>>(p);
        default: return std::make_unique<JobOf<AR_Radau_Chain<>>>(p);
#elif GROUP == 3
        case 0: return std::make_unique<JobOf<Const_Sym4<TidalForce, Tides>>>(p);
        case 1: return std::make_unique<JobOf<AR_Chain<TidalForce, Tides>>>(p);
        case 2: return std::make_unique<JobOf<BS<DragForce, Drag>>>(p);
        default: return std::make_unique<JobOf<Radau<DiskForce, Sized>>>(p);
#else
        case 0: return std::make_unique<JobOf<Const_Sym2_Plus<>>>(p);
        case 1: return std::make_unique<JobOf<DefaultMethod<>>>(p);
        case 2: return std::make_unique<JobOf<PN<AR_Chain>>>(p);
        default: return std::make_unique<JobOf<PN<Radau>>>(p);
#endif
    }
}
std::string files_of(Plan const &p) {
    std::string r;
    for (int i = 0; i < p.files; ++i) {
        std::string f = sim::fs_get(p.path(i).c_str());
        r += "|" + std::to_string(f.size()) + "|" + f;
    }
    return r;
}
// What this simulation does when it has a process of its own.
std::string alone(Plan const &p) {
    return sim::fresh([&] {
        std::string out;
        {
            auto j = make(p);
            for (size_t r = 0; r < p.ends.size(); ++r) j->leg((int)r);
            out.swap(j->out);
        }
        uint64_t n = out.size();
        sim::fresh_put(&n, sizeof n);
        sim::fresh_put(out.data(), n);
        auto f = files_of(p);
        sim::fresh_put(f.data(), f.size());
    });
}
void check(Plan const &p, std::string const &want, std::string const &out) {
    uint64_t n;
    memcpy(&n, want.data(), sizeof n);
    std::string w = want.substr(sizeof n, n), wf = want.substr(sizeof n + n);
    if (w != out) {
        size_t d = 0;
        while (d < w.size() && d < out.size() && w[d] == out[d]) ++d;
        size_t rec = (2 + 6 * p.c.b.size()) * sizeof(double), k = d / rec;
        double tw = 0, to = 0;
        if ((k + 1) * rec <= w.size()) memcpy(&tw, w.data() + k * rec, 8);
        if ((k + 1) * rec <= out.size()) memcpy(&to, out.data() + k * rec, 8);
        sim::fail("trajectory", "simulation %d (method %d): callback %zu of %zu sees another state (value %zu, time %.17g) than when the simulation runs in a process of its own (%zu calls, time %.17g)", p.id,
                  p.method, k, out.size() / rec, d % rec / 8, to, w.size() / rec, tw);
    }
    auto f = files_of(p);
    if (f != wf) {
        size_t d = 0;
        while (d < f.size() && d < wf.size() && f[d] == wf[d]) ++d;
        sim::fail("output", "simulation %d (method %d): its output files differ at byte %zu from those of the simulation in a process of its own: \"%s\" instead of \"%s\"", p.id, p.method, d,
                  f.substr(d, 50).c_str(), wf.substr(d, 50).c_str());
    }
}
std::vector<Plan> plans(int n) {
    std::vector<Plan> v;
    for (int i = 0; i < n; ++i) {
        Plan p;
        if (i && sim::pick(4) == 3)
            p = v[sim::pick(i)];  // the same simulation again
        else {
            p.method = (int)sim::pick(4);
            p.c = nb::ic((int)sim::pick(4), 0.05 * (double)sim::pick(8), 0.1 * (double)sim::pick(5));
            p.t0 = (double)sim::pick(3);
            bool constant = p.method == 0;
            p.step = p.c.period * (constant ? 0.005 : 0.01) * (double)(1 + sim::pick(3));
            p.rtol = sim::pick(2) ? 1e-9 : 1e-12;
            if (sim::pick(3) == 2) p.atol = 1e-10;
            if (sim::pick(3) == 2) p.time_rtol = sim::pick(2) ? 1e-3 : 1e-12;
            p.first_step = constant || sim::pick(4) != 3;
            p.copied = sim::pick(4) == 3;
            int legs = 1 + (int)sim::pick(3);
            double t = p.t0;
            for (int k = 0; k < legs; ++k) p.ends.push_back(t += p.step * (double)(1 + sim::pick(constant ? 10 : 4)));
            p.files = (int)sim::pick(3);
            for (int k = 0; k < p.files; ++k) p.energy[k] = sim::pick(2), p.how[k] = (int)sim::pick(3);
        }
        p.id = i;
        v.push_back(p);
    }
    return v;
}
}  // namespace

// One after another, or leg by leg in any order, in one thread.
SIM_SCENARIO(iso_order) {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = 400000000;
    sim::configure(o);
    auto ps = plans(2 + (int)sim::pick(3));
    std::vector<std::string> want;
    for (auto &p : ps) want.push_back(alone(p));
    if (sim::pick(2)) {
        for (size_t i = 0; i < ps.size(); ++i) {
            auto j = make(ps[i]);
            for (size_t r = 0; r < ps[i].ends.size(); ++r) j->leg((int)r);
            std::string out = j->out;
            j.reset();
            check(ps[i], want[i], out);
        }
    } else {
        std::vector<std::unique_ptr<Job>> js(ps.size());
        std::vector<int> next(ps.size(), -1);
        std::vector<std::string> out(ps.size());
        for (;;) {
            std::vector<int> can;
            for (size_t i = 0; i < ps.size(); ++i)
                if (next[i] <= (int)ps[i].ends.size()) can.push_back((int)i);
            if (can.empty()) break;
            int i = can[sim::pick(can.size())];
            if (next[i] < 0)
                js[i] = make(ps[i]);
            else if (next[i] < (int)ps[i].ends.size())
                js[i]->leg(next[i]);
            else {
                out[i] = js[i]->out;
                js[i].reset();
            }
            ++next[i];
        }
        for (size_t i = 0; i < ps.size(); ++i) check(ps[i], want[i], out[i]);
    }
}
// At the same time on threads of their own.
SIM_SCENARIO(iso_threads) {
    sim::Opt o;
    o.budget = 400000000, o.horizon = 300000000;
    sim::configure(o);
    auto ps = plans(2 + (int)sim::pick(2));
    std::vector<std::string> want;
    for (auto &p : ps) want.push_back(alone(p));
    std::vector<std::string> out(ps.size());
    scn::Threads th;
    for (size_t i = 0; i < ps.size(); ++i)
        th.go([&, i] {
            auto j = make(ps[i]);
            for (size_t r = 0; r < ps[i].ends.size(); ++r) j->leg((int)r);
            out[i] = j->out;
        });
    th.join();
    for (size_t i = 0; i < ps.size(); ++i) check(ps[i], want[i], out[i]);
}
// Simulations started, carried on and thrown away inside the callbacks of others.
SIM_SCENARIO(iso_nested) {
    sim::Opt o;
    o.preempt = false;
    o.races = false;
    o.budget = 400000000;
    sim::configure(o);
    auto ps = plans(2 + (int)sim::pick(3));
    size_t n = ps.size();
    std::vector<std::string> want, out(n);
    for (auto &p : ps) want.push_back(alone(p));
    std::vector<std::unique_ptr<Job>> js(n);
    std::vector<int> next(n, -1);
    std::vector<bool> busy(n);
    auto go = [&](int i) {
        busy[i] = true;
        if (next[i] < 0)
            js[i] = make(ps[i]);
        else if (next[i] < (int)ps[i].ends.size())
            js[i]->leg(next[i]);
        else {
            out[i] = js[i]->out;
            js[i].reset();
        }
        ++next[i];
        busy[i] = false;
    };
    auto idle = [&] {
        std::vector<int> can;
        for (size_t i = 0; i < n; ++i)
            if (!busy[i] && next[i] <= (int)ps[i].ends.size()) can.push_back((int)i);
        return can;
    };
    unsigned rare = 2 + sim::pick(12);
    g_inside = [&] {
        if (sim::pick(rare)) return;
        auto can = idle();
        if (can.empty()) return;
        sim::probe("nested");
        go(can[sim::pick(can.size())]);
    };
    for (;;) {
        auto can = idle();
        if (can.empty()) break;
        go(can[sim::pick(can.size())]);
    }
    g_inside = nullptr;
    for (size_t i = 0; i < n; ++i) check(ps[i], want[i], out[i]);
}
namespace {
// Different simulations of one type, run with one and the same const RunArgs.
template <typename Sim>
void one_args(std::vector<Plan> const &ps, bool threads) {
    struct Seen {
        std::string out;
        void const *of = nullptr;
    };
    size_t n = ps.size();
    auto const make_sim = [](Plan const &p) { return std::make_unique<Sim>(p.t0, nb::particles<Sim>(p.c)); };
    auto const make_args = [&](std::vector<Seen> &seen) {
        typename Sim::RunArgs a;
        auto rec = [&seen](auto &p, auto h) {
            for (auto &s : seen)
                if (s.of == &p) Rec{&s.out}(p, h);
        };
        a.add_start_point_operation(rec);
        a.add_operation(rec);
        a.add_stop_point_operation(rec);
        a.add_stop_condition([](auto &p, auto) { return p.pos(0).x > 50; });
        a.step_size = ps[0].first_step ? ps[0].step : 0;
        a.rtol = ps[0].rtol, a.atol = ps[0].atol, a.time_rtol = ps[0].time_rtol;
        a.add_stop_condition(ps[0].ends[0]);
        return a;
    };
    std::vector<std::string> want;
    for (size_t i = 0; i < n; ++i)
        want.push_back(sim::fresh([&] {
            std::vector<Seen> seen(1);
            auto s = make_sim(ps[i]);
            seen[0].of = &s->particles();
            s->run(make_args(seen));
            uint64_t len = seen[0].out.size();
            sim::fresh_put(&len, sizeof len);
            sim::fresh_put(seen[0].out.data(), len);
        }));
    std::vector<std::unique_ptr<Sim>> ss;
    std::vector<Seen> seen(n);
    for (size_t i = 0; i < n; ++i) ss.push_back(make_sim(ps[i])), seen[i].of = &ss[i]->particles();
    auto const args = make_args(seen);
    if (threads) {
        scn::Threads th;
        for (size_t i = 0; i < n; ++i) th.go([&, i] { ss[i]->run(args); });
        th.join();
    } else
        for (size_t i = 0; i < n; ++i) ss[i]->run(args);
    for (size_t i = 0; i < n; ++i) check(ps[i], want[i], seen[i].out);
}
}  // namespace
SIM_SCENARIO(iso_one_args) {
    sim::Opt o;
    o.budget = 400000000, o.horizon = 300000000;
    sim::configure(o);
    auto ps = plans(2 + (int)sim::pick(2));
    for (auto &p : ps) p.method = ps[0].method, p.files = 0, p.t0 = ps[0].t0;
    bool threads = sim::pick(4) > 0;
    using namespace hub::methods;
    switch (ps[0].method) {
#if GROUP == 0
        case 0: return one_args<Const_Sym4<>>(ps, threads);
        case 1: return one_args<BS<>>(ps, threads);
        default: return one_args<Radau<>>(ps, threads);
#elif GROUP == 1
        case 0: return one_args<Const_AR_Sym6_Chain<>>(ps, threads);
        case 1: return one_args<Chain_BS<>>(ps, threads);
        default: return one_args<AR_BS<>>(ps, threads);
#else
        default: return;
#endif
    }
}
