// C13: progress of the executor. Real code: src/taskflow/core (executor, notifier, work-stealing queue).
#include <condition_variable>
#include <future>

#include "tflow.h"

namespace {
// One submitted piece of work.
struct Piece {
    tf::Taskflow tf;
    int kind = 0, runs = 0, size = 0;
    int done = 0;      // tasks run; plain, the future or the wait must publish it
    int fired = 0;     // completion callback
    int inner = 0;     // submissions made from inside its tasks
    bool callback = false;
    std::atomic<bool> submitted{false};
    tf::Future<void> fu;
};
enum { RUN, RUN_N, UNTIL, ASYNC, SILENT, EMPTY_GRAPH, ZERO };

struct World {
    std::vector<std::unique_ptr<Piece>> p;
    std::vector<int> inner_done;
    tf::Executor *ex{nullptr};

    void make(int n, bool nested) {
        for (int i = 0; i < n; ++i) {
            p.emplace_back(new Piece);
            Piece &x = *p.back();
            x.kind = (int)sim::pick(7);
            x.size = 1 + (int)sim::pick(3);
            x.runs = x.kind == RUN || x.kind == ASYNC || x.kind == SILENT ? 1 : x.kind == EMPTY_GRAPH || x.kind == ZERO ? 0 : 1 + (int)sim::pick(2);
            x.callback = sim::pick(2);
            if (nested && sim::pick(2)) x.inner = 1 + (int)sim::pick(2);
            if (x.kind == ASYNC || x.kind == SILENT) x.size = 1;
            if (x.kind != EMPTY_GRAPH) {
                if (sim::pick(2)) {  // a chain
                    tf::Task last;
                    for (int k = 0; k < x.size; ++k) {
                        auto t = x.tf.emplace([this, &x, i, k] { body(x, i, k); });
                        if (k) last.precede(t);
                        last = t;
                    }
                } else {
                    auto a = x.tf.emplace([this, &x, i] { body(x, i, 0); });
                    auto b = x.tf.emplace([&x] { x.done += x.size - 1; });
                    for (int k = 1; k < x.size; ++k) {
                        auto m = x.tf.emplace([] {});
                        a.precede(m);
                        m.precede(b);
                    }
                    a.precede(b);
                }
            }
        }
        inner_done.resize(n);
    }
    void body(Piece &x, int i, int k) {
        x.done++;
        if (k == 0)
            for (int j = 0; j < x.inner; ++j) {
                if (j % 2)
                    ex->async([this, i] { count(i); });
                else
                    ex->silent_async([this, i] { count(i); });
            }
    }
    std::mutex m;
    void count(int i) {
        std::lock_guard<std::mutex> l(m);
        inner_done[i]++;
    }
    void submit(tf::Executor &e, int i) {
        Piece &x = *p[i];
        auto cb = [&x] { x.fired++; };
        int k = x.runs;
        auto until = [k]() mutable { return k-- == 0; };
        switch (x.kind) {
            case RUN:
            case EMPTY_GRAPH: x.fu = x.callback ? e.run(x.tf, cb) : e.run(x.tf); break;
            case RUN_N:
            case ZERO: x.fu = x.callback ? e.run_n(x.tf, x.runs, cb) : e.run_n(x.tf, x.runs); break;
            case UNTIL: x.fu = x.callback ? e.run_until(x.tf, until, cb) : e.run_until(x.tf, until); break;
            case ASYNC: x.fu = e.async([this, &x, i] { body(x, i, 0); }); break;
            case SILENT: e.silent_async([this, &x, i] { body(x, i, 0); }); break;
        }
        if (x.kind == ASYNC || x.kind == SILENT) x.callback = false;
        x.submitted.store(true);
    }
    void finished(int i, const char *when) {
        Piece &x = *p[i];
        SIM_CHECK(x.done == x.runs * x.size, "unfinished", "%s: %d of %d tasks of submission %d (kind %d) have run", when, x.done, x.runs * x.size, i, x.kind);
        SIM_CHECK(x.fired == (x.callback ? 1 : 0), "callback", "%s: the completion callback of submission %d (kind %d) ran %d times, expected %d", when, i, x.kind, x.fired,
                  (int)x.callback);
    }
    void got(size_t i, const char *when) {
        SIM_CHECK(p[i]->fu.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future", "%s: the future of submission %zu is not ready", when, i);
        try {
            p[i]->fu.get();
        } catch (std::exception const &e) {
            sim::fail("future", "%s: the future of submission %zu holds an exception: %s", when, i, e.what());
        }
    }
    void all_finished(const char *when) {
        for (size_t i = 0; i < p.size(); ++i) {
            finished((int)i, when);
            int want = p[i]->inner * p[i]->runs;
            SIM_CHECK(inner_done[i] == want, "unfinished", "%s: %d of %d tasks submitted from tasks have run", when, inner_done[i], want);
            if (p[i]->fu.valid())
                got(i, when);
        }
    }
};
}  // namespace

// Work submitted by one to three threads while workers fall asleep.
SIM_SCENARIO(progress_submit) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    World w;
    int n = 1 + (int)sim::pick(7);
    bool nested = sim::pick(2);
    w.make(n, nested);
    int threads = (int)sim::pick(3), waiters = sim::pick(3) == 2 ? 1 + (int)sim::pick(2) : 0;
    int end = (int)sim::pick(3);
    std::vector<int> pause(n), wait(n);
    for (auto &x : pause) x = sim::pick(3) == 2 ? 20 * (int)sim::pick(12) : 0;
    for (auto &x : wait) x = sim::pick(3) == 2;
    {
        auto ex = std::make_unique<tf::Executor>(workers);
        w.ex = ex.get();
        std::atomic<int> next{0};
        auto body = [&] {
            for (int i; (i = next.fetch_add(1)) < n;) {
                scn::work(pause[i]);
                w.submit(*ex, i);
                if (wait[i] && w.p[i]->fu.valid()) {
                    w.p[i]->fu.wait();
                    w.finished(i, "after its future");
                }
            }
        };
        scn::Threads th;
        for (int i = 0; i < threads; ++i) th.go(body);
        for (int i = 0; i < waiters; ++i)
            th.go([&, i] {
                for (int r = 0; r < 2; ++r) {
                    std::vector<char> before(n);
                    for (int k = 0; k < n; ++k) before[k] = w.p[k]->submitted.load();
                    size_t running = ex->num_topologies();
                    SIM_CHECK(running <= 64, "pending", "%zu runs counted", running);
                    ex->wait_for_all();
                    for (int k = 0; k < n; ++k)
                        if (before[k]) w.finished(k, "after waiting for all");
                    scn::work(7);
                }
            });
        body();
        th.join();
        if (end == 0) {
            ex->wait_for_all();
            w.all_finished("after waiting for all");
            SIM_CHECK(ex->num_topologies() == 0, "pending", "%zu runs counted after waiting for all", ex->num_topologies());
        } else if (end == 1) {
            for (int k = 0; k < n; ++k)
                if (w.p[k]->fu.valid()) {
                    w.p[k]->fu.get();
                    w.finished(k, "after its future");
                }
        }
        ex.reset();
    }
    if (end != 1)
        w.all_finished("after the executor is destroyed");
    else
        for (int k = 0; k < n; ++k) w.finished(k, "after the executor is destroyed");
}

// Tasks that wait for each other need as many workers: none may sleep while there is work to take.
SIM_SCENARIO(progress_meet) {
    sim::Opt o;
    sim::configure(o);
    size_t workers = 2 + sim::pick(3);
    int rounds = 1 + (int)sim::pick(3);
    tf::Executor ex(workers);
    for (int r = 0; r < rounds; ++r) {
        int k = 2 + (int)sim::pick(workers - 1);
        int kind = (int)sim::pick(5);
        sim::note("%zu workers, %d tasks meet, kind %d", workers, k, kind);
        std::mutex m;
        std::condition_variable cv;
        int here = 0, passed = 0;
        auto meet = [&] {
            std::unique_lock<std::mutex> l(m);
            if (++here == k)
                cv.notify_all();
            else
                while (here < k) cv.wait(l);
            ++passed;
        };
        tf::Taskflow t;
        scn::work(sim::pick(3) == 2 ? 30 * (unsigned)sim::pick(12) : 0);
        switch (kind) {
            case 0:
                for (int i = 0; i < k; ++i) t.emplace(meet);
                ex.run(t).wait();
                break;
            case 1: {
                auto a = t.emplace([] {});
                for (int i = 0; i < k; ++i) a.precede(t.emplace(meet));
                ex.run(t).wait();
                break;
            }
            case 2: {
                t.emplace([&](tf::Subflow &sf) {
                    for (int i = 0; i < k; ++i) sf.emplace(meet);
                });
                ex.run(t).wait();
                break;
            }
            case 3: {
                std::vector<tf::Future<void>> fs;
                for (int i = 0; i < k; ++i) fs.push_back(ex.async(meet));
                for (auto &f : fs) f.wait();
                break;
            }
            default: {
                t.emplace([&] {
                    for (int i = 0; i < k; ++i) ex.silent_async(meet);
                });
                ex.run(t);
                ex.wait_for_all();
            }
        }
        ex.wait_for_all();
        SIM_CHECK(passed == k, "unfinished", "%d of %d tasks met", passed, k);
    }
}

// Two executors that hand work to each other.
SIM_SCENARIO(progress_two) {
    sim::Opt o;
    sim::configure(o);
    size_t wa = 1 + sim::pick(2), wb = 1 + sim::pick(2);
    int n = 1 + (int)sim::pick(4);
    bool wait_inside = sim::pick(2);
    std::vector<int> a(n), b(n);
    tf::Taskflow ta, tb;
    {
        tf::Executor eb(wb);
        {
            tf::Executor ea(wa);
            for (int i = 0; i < n; ++i)
                ta.emplace([&, i] {
                    a[i]++;
                    auto f = eb.async([&, i] {
                        b[i]++;
                        return i * 3;
                    });
                    if (wait_inside) {
                        auto v = f.get();
                        SIM_CHECK(v && *v == i * 3, "value", "asynchronous task %d returned another value", i);
                        SIM_CHECK(b[i] == 1, "unfinished", "the future was ready before its task ran");
                    }
                });
            for (int i = 0; i < n; ++i)
                tb.emplace([&] { ea.silent_async([] {}); });
            auto f = ea.run(ta);
            if (sim::pick(2)) {
                auto g = eb.run(tb);
                g.wait();
            }
            if (sim::pick(2)) f.wait();
        }
        for (int i = 0; i < n; ++i) SIM_CHECK(a[i] == 1, "unfinished", "task %d ran %d times", i, a[i]);
    }
    for (int i = 0; i < n; ++i) SIM_CHECK(b[i] == 1, "unfinished", "task %d handed to the other executor ran %d times", i, b[i]);
}

// What cannot be submitted or created is told to the caller and leaves nothing behind that others would wait for.
namespace {
struct Fragile {  // a callable whose copies may fail
    std::atomic<int> *ran;
    bool fails;
    Fragile(std::atomic<int> *r, bool f) : ran(r), fails(f) {}
    Fragile(Fragile const &o) : ran(o.ran), fails(o.fails) {
        if (fails) throw std::logic_error("copy");
    }
    void operator()() const { ++*ran; }
};
std::unique_ptr<tf::Executor> executor_or_failure(size_t workers) {
    for (;;) {
        try {
            return std::make_unique<tf::Executor>(workers);
        } catch (std::exception const &) {
            sim::probe("no-executor");
        }
    }
}
}  // namespace
SIM_SCENARIO(progress_refused) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    o.thread_fail = sim::pick(2);
    o.alloc_fail = sim::pick(2);
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    int n = 1 + (int)sim::pick(8);
    bool wait = sim::pick(2);
    struct Item {
        int kind, want{0};
        std::atomic<int> ran{0};
        bool fails;
        tf::Taskflow tf;
        int fired{0};
        bool cb{false};
    };
    std::vector<std::unique_ptr<Item>> it;
    for (int i = 0; i < n; ++i) {
        it.emplace_back(new Item);
        it.back()->kind = (int)sim::pick(6);
        it.back()->fails = sim::pick(2);
    }
    {
        auto ex = executor_or_failure(workers);
        for (auto &p : it) {
            Item &x = *p;
            bool accepted = true;
            Fragile f(&x.ran, false);
            try {
                switch (x.kind) {
                    case 0:
                        f.fails = x.fails;
                        if (sim::pick(2)) {
                            sim::AllocFaults a;
                            ex->async(f);
                        } else
                            ex->async(f);
                        break;
                    case 1: {
                        f.fails = x.fails;
                        sim::AllocFaults a;
                        ex->silent_async(f);
                        break;
                    }
                    case 2:  // a predicate that fails at once
                        x.tf.emplace([&x] { x.ran++; });
                        ex->run_until(x.tf, [&x, k = 0]() mutable {
                            if (x.fails) throw std::logic_error("predicate");
                            return k++ == 1;
                        });
                        break;
                    case 3:  // a callback that fails at once, there being nothing to run
                        x.cb = true;
                        ex->run(x.tf, [&x] {
                            if (x.fails) throw std::logic_error("callback");
                            x.fired++;
                        });
                        break;
                    case 4:  // refused inside a task
                    case 5: {
                        bool silent = x.kind == 5, refused = x.fails;
                        x.tf.emplace([&x, silent, refused](tf::Subflow &sf) {
                            for (int k = 0; k < 2; ++k) {
                                Fragile g(&x.ran, refused && k == 0);
                                try {
                                    sim::AllocFaults a;
                                    if (silent) sf.silent_async(g);
                                    else sf.async(g);
                                    x.want++;
                                } catch (std::exception const &) {
                                    sim::probe("refused-in-task");
                                }
                            }
                        });
                        ex->run(x.tf);
                        break;
                    }
                }
            } catch (std::exception const &) {
                sim::probe("refused");
                accepted = false;
                SIM_CHECK(x.kind < 2 || x.fails, "refused", "a submission failed that was not made to fail");
            }
            if (x.kind < 4) {
                SIM_CHECK(accepted || x.ran == 0, "refused", "a refused submission ran");
                SIM_CHECK(!(accepted && x.fails), "refused", "a submission that failed was not reported");
                if (x.kind < 3) x.want = accepted;
            }
            if (sim::pick(3) == 2) scn::work(3);
        }
        if (wait) {
            ex->wait_for_all();
            SIM_CHECK(ex->num_topologies() == 0, "count", "%zu runs are counted when all are finished", ex->num_topologies());
        }
    }
    for (int i = 0; i < n; ++i) SIM_CHECK(it[i]->ran == it[i]->want, "run-count", "submission %d (kind %d): %d executions, %d were accepted", i, it[i]->kind, it[i]->ran.load(), it[i]->want);
}
