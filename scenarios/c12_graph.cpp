// C12: task graphs. Real code: src/taskflow/core (executor, graph, flow builder, work-stealing queue, notifier).
#include "tflow.h"

using namespace tfl;
namespace {
struct Job {
    std::unique_ptr<Flow> f;
    std::unique_ptr<Interp> want;
    int runs = 0;          // runs seen to end; plain: runs of one graph do not overlap
    int requested = 0;     // total
    bool watched = true;   // every run's end is seen
    std::vector<int> fired;  // completion callbacks, by submission
    void run_ended(const char *when) {
        ++runs;
        f->check_counts(want->after[runs], when);
    }
};
struct Sub {  // one submission
    int job, kind, times;
    bool wait, tail;
};
// stops after `times` runs; looks at the graph after each
struct Until {
    Job *j;
    int times, asked = 0;
    bool operator()() {
        if (asked++) j->run_ended("after a run");
        return asked > times;
    }
};

void submit(tf::Executor &ex, Job &j, Sub const &s, int *fired) {
    tf::Future<void> fu;
    tf::Taskflow &t = *j.f->tf;
    auto cb = [fired] { ++*fired; };
    auto end = [fired, &j] {
        ++*fired;
        j.run_ended("at the callback");
    };
    switch (s.kind) {
        case 0:
            if (j.watched)
                fu = ex.run(t, end);
            else
                fu = ex.run(t, cb);
            break;
        case 1:
            if (j.watched)
                fu = ex.run_until(t, Until{&j, s.times}, cb);
            else {
                int k = s.times;
                fu = ex.run_until(t, [k]() mutable { return k-- == 0; }, cb);
            }
            break;
        case 2: fu = ex.run_n(t, s.times, cb); break;
        default:
            if (s.times == 1)
                fu = ex.run(t);
            else
                fu = ex.run_n(t, s.times);
            *fired = 1;
    }
    if (s.wait) {
        try {
            fu.get();
        } catch (std::exception const &e) {
            sim::fail("future", "the future of a run holds an exception: %s", e.what());
        }
        SIM_CHECK(*fired == 1, "callback", "the completion callback ran %d times before the future was ready", *fired);
    }
}

void graphs(bool branches) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    Gen g;
    g.branches = branches;
    int njobs = 1 + (int)sim::pick(2);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < njobs; ++i) {
        g.budget = 12;
        jobs.emplace_back(new Job);
        jobs[i]->f = g.flow();
        jobs[i]->want = std::make_unique<Interp>(*jobs[i]->f);
    }
    std::vector<Sub> subs;
    int n = 1 + (int)sim::pick(4);
    for (int i = 0; i < n; ++i) {
        Sub s;
        s.job = (int)sim::pick(njobs);
        s.kind = (int)sim::pick(4);
        s.times = s.kind == 0 ? 1 : 1 + (int)sim::pick(3);
        s.wait = sim::pick(3) == 2;
        s.tail = sim::pick(2);
        Job &j = *jobs[s.job];
        j.requested += s.times;
        if (s.kind >= 2) j.watched = false;
        subs.push_back(s);
    }
    for (auto &j : jobs) j->want->upto(j->requested);
    int threads = (int)sim::pick(3);
    bool destroy = sim::pick(3) == 2;
    sim::note("%zu workers, %d graphs (%zu tasks), %zu submissions by %d more threads", workers, njobs, jobs[0]->f->u.size(), subs.size(), threads);
    std::vector<int> fired(subs.size());
    for (auto &j : jobs) j->f->build();
    {
        auto ex = std::make_unique<tf::Executor>(workers);
        std::atomic<size_t> next{0};
        auto body = [&] {
            for (size_t i; (i = next.fetch_add(1)) < subs.size();) {
                submit(*ex, *jobs[subs[i].job], subs[i], &fired[i]);
                if (subs[i].tail) scn::work(4);
            }
        };
        scn::Threads th;
        for (int i = 0; i < threads; ++i) th.go(body);
        body();
        th.join();
        if (destroy)
            ex.reset();
        else
            ex->wait_for_all();
        for (auto &j : jobs) j->f->check_counts(j->want->after[j->requested], "at the end");
        for (size_t i = 0; i < subs.size(); ++i) SIM_CHECK(fired[i] == 1, "callback", "completion callback %zu ran %d times", i, fired[i]);
        if (ex) SIM_CHECK(ex->num_topologies() == 0, "pending", "%zu runs pending after everything finished", ex->num_topologies());
    }
}
}  // namespace

// Acyclic graphs of static, nested, composed and dynamic tasks.
SIM_SCENARIO(graph_dag) { graphs(false); }
// With loops and branches.
SIM_SCENARIO(graph_branch) { graphs(true); }
// The same graph by itself and composed into others, in any order, with changes between the runs.
SIM_SCENARIO(graph_reuse) {
    sim::Opt o;
    sim::configure(o);
    size_t workers = 1 + sim::pick(3);
    Gen g;
    g.branches = false;
    g.budget = 8;
    auto inner = g.flow();
    inner->name = "inner graph";
    if (inner->u[0]->type == EMPTY) inner->u[0]->type = STATIC;
    int total = 0;
    inner->build();
    tf::Executor ex(workers);
    int steps = 1 + (int)sim::pick(5);
    std::unique_ptr<tf::Taskflow> outer;
    int before = 0, after = 0, outer_runs = 0;
    for (int s = 0; s < steps; ++s) {
        switch (sim::pick(4)) {
            case 0: {  // by itself
                int k = 1 + (int)sim::pick(2);
                sim::note("alone %d", k);
                ex.run_n(*inner->tf, k).wait();
                total += k;
                break;
            }
            case 1:
            case 2: {  // composed
                if (!outer || sim::pick(2)) {
                    outer = std::make_unique<tf::Taskflow>();
                    before = after = outer_runs = 0;
                    auto a = outer->emplace([&] { ++before; });
                    auto m = outer->composed_of(*inner->tf);
                    auto b = outer->emplace([&] {
                        ++after;
                        SIM_CHECK(before == after, "order", "after the composed graph: %d before, %d after", before, after);
                        for (auto &x : inner->u) SIM_CHECK(x->type == EMPTY || Flow::complete(*x), "order", "the task after a composed graph started before it was done");
                    });
                    a.precede(m);
                    m.precede(b);
                }
                int k = 1 + (int)sim::pick(2);
                sim::note("composed %d", k);
                ex.run_n(*outer, k).wait();
                outer_runs += k;
                total += k;
                SIM_CHECK(before == outer_runs && after == outer_runs, "run-count", "tasks around a composed graph ran %d and %d times, expected %d", before, after,
                          outer_runs);
                break;
            }
            case 3: {  // a new task at the end
                sim::note("new task");
                if (sim::pick(2)) outer.reset();
                int i = inner->add(STATIC);
                inner->u[i]->n = total;
                inner->emit_one(*inner->tf, i);
                break;
            }
        }
        for (size_t i = 0; i < inner->u.size(); ++i) {
            Unit &x = *inner->u[i];
            if (x.type == EMPTY) continue;
            SIM_CHECK(x.count() == total, "run-count", "task %zu of the inner graph ran %d times, expected %d", i, x.count(), total);
            Flow::check_all(x, "after a run");
        }
    }
}
