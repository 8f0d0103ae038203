// C15: cancellation. Real code: src/taskflow/core (Future::cancel, executor, topology, task graphs).
#include <future>
#include <optional>

#include "tflow.h"

namespace {
enum { CANCELLED = 40, STARTED = 41, AFTER = 50 };  // simulator counters: AFTER+w starts on worker w after the cancellation

// Watches one run: how many tasks each worker starts after the run was cancelled.
void watch(tf::Executor &ex, tfl::Flow &f) {
    sim::ctr_set(CANCELLED, 0);
    sim::ctr_set(STARTED, 0);
    for (int i = 0; i < 5; ++i) sim::ctr_set(AFTER + i, 0);
    f.set_hook([&ex](tfl::Unit &, int what) {
        if (what == 1) return;
        sim::ctr_add(STARTED, 1);
        if (!sim::ctr_get(CANCELLED)) return;
        int w = ex.this_worker_id();
        // a worker may just have been about to start one
        SIM_CHECK(sim::ctr_add(AFTER + w, 1) <= 1, "late-start", "a worker started a second task after the run had been cancelled");
    });
}
struct Job {
    std::unique_ptr<tfl::Flow> f;
    std::unique_ptr<tfl::Interp> in;
    int runs = 1, fired = 0;
    tf::Future<void> fu;
};
Job make(bool branches, bool detach) {
    Job j;
    tfl::Gen g;
    g.branches = branches;
    g.detach = detach;
    g.budget = 10;
    j.f = g.flow();
    j.f->build();
    j.f->set_cancellable();
    j.in = std::make_unique<tfl::Interp>(*j.f);
    return j;
}
}  // namespace

// A run - once, repeated, or without end - is cancelled at any moment; the same and other graphs are run beside and after it.
SIM_SCENARIO(cancel_graph) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    bool detach = sim::pick(2), branches = sim::pick(2);
    Job j = make(branches, detach);
    bool other = sim::pick(3) == 2, queued = sim::pick(3) == 2;
    Job b;
    if (other) b = make(sim::pick(2), sim::pick(2));
    unsigned mode = sim::pick(3);  // run, run_n, run_until cancelled
    j.runs = mode == 1 ? 2 + (int)sim::pick(3) : 1;
    unsigned cancellers = 1 + sim::pick(2);
    int from[2] = {(int)sim::pick(12), (int)sim::pick(12)};  // tasks started before cancelling
    int wait[2] = {(int)sim::pick(30), (int)sim::pick(30)};
    if (sim::pick(3) == 2) wait[0] = 200;
    int again = (int)sim::pick(3);
    {
        tf::Executor ex(workers);
        watch(ex, *j.f);
        if (other) b.fu = ex.run(*b.f->tf);
        auto done = [&] {
            if (j.fired++ == 0 && queued) {  // the queued run counts from the start
                sim::ctr_set(CANCELLED, 0);
                j.f->reset();
            }
        };
        if (mode == 0) j.fu = ex.run(*j.f->tf, done);
        if (mode == 1) j.fu = ex.run_n(*j.f->tf, j.runs, done);
        if (mode == 2) j.fu = ex.run_until(*j.f->tf, [] { return false; }, done);
        tf::Future<void> next;
        if (queued) next = ex.run(*j.f->tf);
        bool said[2] = {false, false};
        scn::Threads t;
        for (unsigned i = 0; i < cancellers; ++i)
            t.go([&, i] {
                for (int k = 0; k < 400 && sim::ctr_get(STARTED) < from[i]; ++k) sim::yield();
                scn::work(wait[i]);
                bool ok = j.fu.cancel();
                said[i] = ok;
                // the queued run starts when this one has ended: nothing to compare with any more
                if (ok && !queued) sim::ctr_set(CANCELLED, 1);
            });
        t.join();
        bool cancelled = said[0] || said[1];
        if (mode == 2) SIM_CHECK(cancelled, "refused", "cancelling a run that never ends by itself was refused");
        j.fu.wait();
        SIM_CHECK(!j.fu.cancel(), "refused", "a finished run could be cancelled");
        if (cancelled) sim::probe("cancelled");
        if (queued) {
            next.wait();
            j.f->check_counts(j.in->upto(1), "the run queued behind a cancelled one");
        } else if (!cancelled)
            j.f->check_counts(j.in->upto(j.runs), "a run that could no longer be cancelled");
        if (other) {
            b.fu.wait();
            b.f->check_counts(b.in->upto(1), "a run beside a cancelled one");
        }
        SIM_CHECK(j.fired == 1, "callback", "the completion callback of a cancelled run ran %d times", j.fired);
        for (int k = 0; k < again; ++k) {
            j.f->reset();
            j.in = std::make_unique<tfl::Interp>(*j.f);
            sim::ctr_set(CANCELLED, 0);
            int n = 1 + k;
            ex.run_n(*j.f->tf, n).wait();
            j.f->check_counts(j.in->upto(n), "a run after a cancelled one");
        }
        ex.wait_for_all();
        SIM_CHECK(ex.num_topologies() == 0, "count", "%zu runs are counted after all have finished", ex.num_topologies());
    }
}

// All workers are busy while work is cancelled: none of it may start at all.
SIM_SCENARIO(cancel_queued) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(3);
    Job j = make(sim::pick(2), true);
    int na = (int)sim::pick(4), nv = (int)sim::pick(4);
    std::vector<int> ran(na + nv);
    tf::Executor ex(workers);
    sim::ctr_set(CANCELLED, 0);
    watch(ex, *j.f);
    std::atomic<int> in{0};
    std::atomic<bool> open{false};
    for (size_t i = 0; i < workers; ++i)
        ex.silent_async([&] {
            in++;
            while (!open) sim::yield();
        });
    while (in != (int)workers) sim::yield();
    std::vector<tf::Future<void>> fa;
    std::vector<tf::Future<std::optional<int>>> fv;
    bool before = sim::pick(2);
    auto submit = [&] {
        for (int i = 0; i < na; ++i) fa.push_back(ex.async([&ran, i] { ran[i]++; }));
        for (int i = 0; i < nv; ++i)
            fv.push_back(ex.async([&ran, i, na] {
                ran[na + i]++;
                return 100 + i;
            }));
    };
    if (before) submit();
    j.fu = ex.run_n(*j.f->tf, 1 + sim::pick(2));
    if (!before) submit();
    uint64_t spare = sim::pick(1u << (na + nv));  // those left alone
    for (int i = 0; i < na + nv; ++i)
        if (!(spare >> i & 1)) SIM_CHECK(i < na ? fa[i].cancel() : fv[i - na].cancel(), "refused", "an asynchronous task that has not started could not be cancelled");
    bool keep = sim::pick(3) == 2;
    if (!keep)
        for (int k = 0; k < 2; ++k) SIM_CHECK(j.fu.cancel(), "refused", "a run that has not started could not be cancelled (attempt %d)", k + 1);
    if (sim::pick(2)) sim::yield();
    open = true;
    if (sim::pick(2)) ex.wait_for_all();
    j.fu.wait();
    if (keep)
        ;
    else
        SIM_CHECK(j.f->none(), "late-start", "tasks of a run ran that was cancelled while all workers were busy");
    for (int i = 0; i < na; ++i) fa[i].wait();
    for (int i = 0; i < nv; ++i) {
        std::optional<int> r = fv[i].get();
        bool left = spare >> (na + i) & 1;
        SIM_CHECK(r.has_value() == left && (!left || *r == 100 + i), "async-value", "an asynchronous task that was %s delivered %s", left ? "not cancelled" : "cancelled",
                  r ? "a value" : "no value");
    }
    for (int i = 0; i < na + nv; ++i)
        SIM_CHECK(ran[i] == (int)(spare >> i & 1), "run-count", "an asynchronous task %s ran %d times", spare >> i & 1 ? "left alone" : "cancelled before it started", ran[i]);
    ex.wait_for_all();
    j.f->reset();
    j.in = std::make_unique<tfl::Interp>(*j.f);
    ex.run(*j.f->tf).wait();
    j.f->check_counts(j.in->upto(1), "a run after a cancelled one");
}

// Asynchronous tasks cancelled while they may be starting, from outside and inside a spawned graph.
SIM_SCENARIO(cancel_async) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    int n = 1 + (int)sim::pick(6);
    std::vector<int> ran(n), end(n);
    tf::Executor ex(workers);
    auto one = [&](int i, tf::Future<std::optional<int>> &f, int w) {
        scn::work(w);
        sim::yield();
        bool ok = f.cancel();
        auto r = f.get();
        if (r) {
            SIM_CHECK(*r == 7 + i && ran[i] == 1 && end[i] == 1, "async-value", "an asynchronous task delivered %d after %d executions", *r, ran[i]);
        } else {
            SIM_CHECK(ok && ran[i] == 0, "async-value", "an asynchronous task delivered nothing, cancelled %d, executed %d", ok, ran[i]);
            sim::probe("cancelled");
        }
        SIM_CHECK(!f.valid(), "future", "a future is valid after get");
    };
    auto body = [&](int i, int w) {
        return [&, i, w] {
            ran[i]++;
            scn::work(w);
            end[i]++;
            return 7 + i;
        };
    };
    if (sim::pick(2)) {
        std::vector<tf::Future<std::optional<int>>> f;
        std::vector<int> w;
        for (int i = 0; i < n; ++i) {
            w.push_back((int)sim::pick(20));
            f.push_back(ex.async(body(i, (int)sim::pick(4))));
        }
        for (int i = 0; i < n; ++i) one(i, f[i], w[i]);
        ex.wait_for_all();
    } else {
        tf::Taskflow t;
        std::vector<int> w, s;
        int after = 0;
        bool join = sim::pick(2);
        for (int i = 0; i < n; ++i) w.push_back((int)sim::pick(8)), s.push_back((int)sim::pick(4));
        auto a = t.emplace([&](tf::Subflow &sf) {
            std::vector<tf::Future<std::optional<int>>> f;
            for (int i = 0; i < n; ++i) f.push_back(sf.async(body(i, s[i])));
            for (int i = 0; i < n; ++i) {
                scn::work(w[i]);
                if (i % 3 != 2) f[i].cancel();
            }
            if (join) {
                sf.join();
                for (int i = 0; i < n; ++i) {
                    SIM_CHECK(f[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future", "a future is not ready after the join");
                    auto r = f[i].get();
                    SIM_CHECK(r.has_value() == (ran[i] == 1), "async-value", "an asynchronous task ran %d times and delivered %s", ran[i], r ? "a value" : "nothing");
                    SIM_CHECK(i % 3 != 2 || r, "async-value", "an asynchronous task that was not cancelled delivered nothing");
                }
            }
        });
        auto b = t.emplace([&] {
            for (int i = 0; i < n; ++i) SIM_CHECK(ran[i] == end[i] && ran[i] <= 1 && (i % 3 != 2 || ran[i] == 1), "order", "asynchronous task %d began %d and ended %d times before the successor", i, ran[i], end[i]);
            after++;
        });
        a.precede(b);
        ex.run(t).wait();
        SIM_CHECK(after == 1, "run-count", "the successor ran %d times", after);
    }
}

// Tasks that take and give back semaphores are cancelled: other work under the same semaphores still completes.
SIM_SCENARIO(cancel_semaphore) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    int limit = 1 + (int)sim::pick(2), n = 1 + (int)sim::pick(5), m = (int)sim::pick(4);
    tf::Executor ex(workers);
    tf::Semaphore s(limit), s2(1 + sim::pick(2));
    int limit2 = s2.count();
    tf::Taskflow a, b;
    std::vector<int> na(n), nb(m);
    int nested = 0;
    sim::ctr_set(STARTED, 0);
    sim::ctr_set(CANCELLED, 0);
    auto guard = [&](tf::Task t, unsigned k) {
        if (k != 1) t.acquire(s);
        if (k != 0) t.acquire(s2);
        if (k != 0) t.release(s2);
        if (k != 1) t.release(s);
    };
    bool chain = sim::pick(2), sub = sim::pick(2);
    tf::Task last;
    for (int i = 0; i < n; ++i) {
        auto t = a.emplace([&na, i] {
            sim::ctr_add(STARTED, 1);
            na[i]++;
            scn::work(2);
        });
        guard(t, sim::pick(3));
        if (chain && i) last.precede(t);
        last = t;
    }
    if (sub)
        a.emplace([&](tf::Subflow &sf) {
            std::vector<tf::Task> c;
            for (int i = 0; i < 2; ++i) {
                c.push_back(sf.emplace([&] { nested++; }));
                c[i].acquire(s);
                c[i].release(s);
            }
            c[0].precede(c[1]);
        });
    for (int i = 0; i < m; ++i) guard(b.emplace([&nb, i] { nb[i]++; }), sim::pick(3));
    int from = (int)sim::pick(n + 2), wait = (int)sim::pick(20);
    auto f = ex.run_until(a, [&] { return false; });
    auto g = ex.run_n(b, 2);
    for (int k = 0; k < 300 && sim::ctr_get(STARTED) < from; ++k) sim::yield();
    scn::work(wait);
    SIM_CHECK(f.cancel(), "refused", "cancelling a run that never ends by itself was refused");
    f.wait();
    g.wait();
    for (int i = 0; i < m; ++i) SIM_CHECK(nb[i] == 2, "run-count", "a task of a run beside a cancelled one ran %d times, expected 2", nb[i]);
    SIM_CHECK(s.count() == limit && s2.count() == limit2, "semaphore", "semaphores of %d and %d count %d and %d after a cancelled run", limit, limit2, s.count(), s2.count());
    for (auto &x : na) x = 0;
    nested = 0;
    ex.run(a).wait();
    for (int i = 0; i < n; ++i) SIM_CHECK(na[i] == 1, "run-count", "a task ran %d times in the run after a cancelled one", na[i]);
    if (sub) SIM_CHECK(nested == 2, "run-count", "%d of 2 spawned tasks ran in the run after a cancelled one", nested);
}

// One task acquires, its successor releases; cancelled in between.
SIM_SCENARIO(cancel_split_semaphore) {
    sim::Opt o;
    sim::configure(o);
    tf::Executor ex(1 + sim::pick(2));
    tf::Semaphore s(1);
    tf::Taskflow a;
    auto t = a.emplace([] {}), u = a.emplace([] {});
    t.acquire(s);
    u.release(s);
    t.precede(u);
    auto f = ex.run(a);
    scn::work(sim::pick(40));
    f.cancel();
    f.wait();
    SIM_CHECK(s.count() == 1, "semaphore", "a semaphore of 1 counts %d after a cancelled run", s.count());
}
