// C06: output files through I/O failures and crashes. Real code: DefaultWriter, EnergyErrWriter (callbacks.hpp),
// simulator, particle systems and their text output, libstdc++ file streams, on the simulated disk.
#include <fstream>
#include "nbody.h"

namespace {
using namespace hub::callback;
constexpr int MAXF = 4;
// What a failure-free run would have put into each file so far (grows before the writer is called).
std::string g_want[MAXF];
int g_files = 0;
bool g_energy[MAXF];
std::string g_old[MAXF];  // what an earlier program left under the name
bool g_opened[MAXF];
std::string path(int i) { return "/sim/out" + std::to_string(i) + ".txt"; }
struct Row {
    double t, err, scale;
};
std::vector<Row> g_rows[MAXF];

void check_text(int i, bool complete) {
    std::string s = sim::fs_get(path(i).c_str());
    std::string const &w = g_want[i];
    size_t n = std::min(s.size(), w.size());
    size_t d = 0;
    while (d < n && s[d] == w[d]) ++d;
    SIM_CHECK(d == s.size(), "not-a-prefix", "file %d: byte %zu of %zu is not what a failure-free run writes there (%zu bytes): found \"%s\", expected \"%s\"", i, d, s.size(), w.size(),
              s.substr(d, 60).c_str(), w.substr(d, 60).c_str());
    if (complete) SIM_CHECK(s.size() == w.size(), "incomplete", "file %d holds %zu of %zu bytes, nothing failed", i, s.size(), w.size());
}
// Energy rows "time,error\n": time and error of each state against the scenario's own computation.
void check_energy(int i, bool complete) {
    std::string s = sim::fs_get(path(i).c_str());
    size_t p = 0, k = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) {
            SIM_CHECK(!complete, "incomplete", "file %d ends in the middle of a row, nothing failed", i);
            break;
        }
        SIM_CHECK(k < g_rows[i].size(), "extra-row", "file %d has more rows than states were reported", i);
        std::string l = s.substr(p, e - p);
        size_t c = l.find(',');
        char *q;
        SIM_CHECK(c != std::string::npos && l.find(',', c + 1) == std::string::npos, "bad-row", "file %d row %zu is \"%s\"", i, k, l.c_str());
        double t = std::strtod(l.c_str(), &q);
        SIM_CHECK(q == l.c_str() + c, "bad-row", "file %d row %zu is \"%s\"", i, k, l.c_str());
        double x = std::strtod(l.c_str() + c + 1, &q);
        SIM_CHECK(*q == 0 && q != l.c_str() + c + 1, "bad-row", "file %d row %zu is \"%s\"", i, k, l.c_str());
        Row const &r = g_rows[i][k];
        SIM_CHECK(t == r.t, "wrong-row", "file %d row %zu has time %.17g, the state was at %.17g", i, k, t, r.t);
        SIM_CHECK(std::fabs(x - r.err) <= 1e-11 * r.scale + 1e-9 * r.err, "wrong-energy", "file %d row %zu (time %.6g): energy error %.10g, the state's is %.10g", i, k, t, x, r.err);
        ++k;
        p = e + 1;
    }
    if (complete) SIM_CHECK(k == g_rows[i].size(), "incomplete", "file %d holds %zu of %zu rows, nothing failed", i, k, g_rows[i].size());
}
void check_all(bool complete) {
    for (int i = 0; i < g_files; ++i) {
        if (!g_opened[i] && sim::fs_get(path(i).c_str()) == g_old[i]) continue;  // the writer was never made
        g_energy[i] ? check_energy(i, complete) : check_text(i, complete);
    }
}
void crashed() { check_all(false); }

// Registered before each writer: notes what it has to write for this state.
struct Expect {
    int file;
    double E0 = 0;
    bool first = true;
    template <typename P, typename S>
    void operator()(P &p, S) {
        if (g_energy[file]) {
            double e = nb::energy(p), k = 0;
            for (size_t i = 0; i < p.number(); ++i) k += 0.5 * nb::num(p.mass(i)) * (nb::num(p.vel(i).x) * nb::num(p.vel(i).x) + nb::num(p.vel(i).y) * nb::num(p.vel(i).y) + nb::num(p.vel(i).z) * nb::num(p.vel(i).z));
            if (first) E0 = e;
            g_rows[file].push_back({nb::num(p.time()), std::fabs((e - E0) / E0), (std::fabs(e) + 2 * k) / std::fabs(E0)});
        } else {
            sim::quiet(true);
            std::ostringstream o;
            o << std::scientific << std::setprecision(16);
            if (first) o << p.column_names() << '\n';
            o << p << '\n';
            sim::quiet(false);
            g_want[file] += o.str();
        }
        first = false;
    }
};
template <typename Sim>
void go(Sim &s, typename Sim::RunArgs &a) {
    s.run(a);
}

template <typename Sim>
std::vector<double> plain_run(double t0, nb::Ic const &c, double step, std::vector<double> const &ends) {
    sim::quiet(true);
    auto ps = nb::particles<Sim>(c);
    Sim s(t0, ps);
    for (double e : ends) {
        typename Sim::RunArgs a;
        a.step_size = step;
        a.rtol = 1e-9;
        a.add_stop_condition(e);
        s.run(a);
    }
    auto r = nb::snap(s.particles());
    sim::quiet(false);
    return r;
}
enum How { each, every, timed, started };

template <typename Sim>
void one_sim(int f0, int nf, int kind, bool constant) {
    auto c = nb::ic(kind, 0.05 * sim::pick(8));
    double t0 = sim::pick(2) ? 0 : 3.25, step = c.period * 0.01 * (double)(1 + sim::pick(3));
    std::vector<double> ends;
    int runs = 1 + sim::pick(2);
    for (int r = 0; r < runs; ++r) ends.push_back((r ? ends.back() : t0) + step * (double)(2 + sim::pick(constant ? 14 : 5)));
    auto want = plain_run<Sim>(t0, c, step, ends);
    auto ps = nb::particles<Sim>(c);
    {
        Sim s(t0, ps);
        typename Sim::RunArgs keep;
        for (int i = f0; i < f0 + nf; ++i) {
            How how = (How)sim::pick(4);
            size_t n = 1 + sim::pick(3);
            double w0 = t0, w1 = ends.back();
            bool end_note = !g_energy[i] && sim::pick(3) == 2;
            auto add = [&](auto const &w) {
                g_opened[i] = true;
                Expect e{i};
                switch (how) {
                    case each: keep.add_operation(e), keep.add_operation(w); break;
                    case every:
                        keep.add_operation(StepSlice<Expect>(e, n));
                        keep.add_operation(StepSlice<std::decay_t<decltype(w)>>(w, n));
                        break;
                    case timed:
                        keep.add_operation(TimeSlice<Expect, double>(e, w0, w1, 4));
                        keep.add_operation(TimeSlice<std::decay_t<decltype(w)>, double>(w, w0, w1, 4));
                        break;
                    default: {  // two copies of one writer: the start of the run, then every state
                        auto sh = std::make_shared<Expect>(e);
                        auto f = [sh](auto &p, auto st) { (*sh)(p, st); };
                        keep.add_start_point_operation(f), keep.add_start_point_operation(w);
                        keep.add_operation(f), keep.add_operation(w);
                    }
                }
                if (end_note)
                    keep.add_stop_point_operation([x = std::decay_t<decltype(w)>(w), i](auto &p, auto) mutable {
                        g_want[i] += "# stopped, " + std::to_string(p.number()) + " bodies\n";
                        x << "# stopped, " << p.number() << " bodies\n";
                    });
            };
            if (g_energy[i])
                add(EnergyErrWriter(path(i)));
            else
                add(DefaultWriter(path(i)));
        }
        keep.step_size = step;
        keep.rtol = 1e-9;
        for (double e : ends) {
            keep.add_stop_condition(e);
            s.run(keep);
        }
        auto got = nb::snap(s.particles());
        SIM_CHECK(nb::same(got, want), "disturbed", "the simulation with output files differs from the one without (value %d)", nb::first_diff(got, want));
    }
}
template <typename Sim>
void pick_sim(int f0, int nf, bool constant) {
    one_sim<Sim>(f0, nf, sim::pick(3), constant);
}
void setup(int nf) {
    g_files = nf;
    for (int i = 0; i < nf; ++i) g_want[i].clear(), g_rows[i].clear(), g_energy[i] = sim::pick(3) == 2, g_opened[i] = false;
    for (int i = 0; i < nf; ++i) {
        g_old[i].clear();
        if (sim::pick(4) == 3) {
            for (uint64_t n = sim::pick(3) == 2 ? 3000 : 1 + sim::pick(4); n; --n) g_old[i] += "3.1,4.1,5.9 left by an earlier program\n";
            sim::fs_put(path(i).c_str(), g_old[i]);
        }
    }
}
void any(int f0, int nf) {
    if (sim::pick(4) == 3)
        pick_sim<hub::methods::Chain_BS<>>(f0, nf, false);
    else
        pick_sim<hub::methods::Const_Sym2<>>(f0, nf, true);
}
}  // namespace

// Interrupted and short writes lose nothing.
SIM_SCENARIO(write_short) {
    sim::Opt o;
    o.preempt = false;
    o.io_short = true;
    o.budget = 60000000, o.horizon = 40000000;
    sim::configure(o);
    setup(1 + sim::pick(3));
    any(0, g_files);
    check_all(true);
}
// Permanent failures: a prefix, and the simulation goes on undisturbed.
SIM_SCENARIO(write_fail) {
    sim::Opt o;
    o.preempt = false;
    o.io_once = sim::pick(3) == 2;  // the failure passes
    o.io_short = o.io_err = !o.io_once;
    o.budget = 60000000, o.horizon = 40000000;
    sim::configure(o);
    setup(1 + sim::pick(3));
    any(0, g_files);
    check_all(!sim::fs_failed());
    if (sim::fs_failed()) sim::probe("disk failed");
}
// Crash anywhere.
SIM_SCENARIO(write_crash) {
    sim::Opt o;
    o.preempt = false;
    o.io_short = true;
    o.crash = true;
    o.budget = 60000000, o.horizon = 40000000;
    sim::configure(o);
    sim::on_crash(crashed);
    setup(1 + sim::pick(3));
    any(0, g_files);
    check_all(true);
}
// Several simulations after one another and at the same time, each with files of its own.
SIM_SCENARIO(write_many) {
    sim::Opt o;
    o.io_short = sim::pick(2);
    o.budget = 120000000, o.horizon = 80000000;
    sim::configure(o);
    setup(4);
    if (sim::pick(2)) {
        any(0, 2);
        any(2, 2);
    } else {
        scn::Threads th;
        th.go([] { any(0, 2); });
        th.go([] { any(2, 2); });
        th.join();
    }
    check_all(true);
}
// A file that cannot be opened is reported, nothing else is touched.
SIM_SCENARIO(write_open) {
    sim::Opt o;
    o.preempt = false;
    o.open_err = true;
    o.budget = 60000000;
    sim::configure(o);
    setup(2);
    sim::expect_exit(crashed);
    any(0, g_files);
    check_all(true);
}
