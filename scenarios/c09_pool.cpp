// C09: thread pool. Real code: src/multi-thread/thread_pool.h on the simulated threads. The pool is a
// function-local static, so its destruction is part of the simulated program's exit.
#include "common.h"

#include <condition_variable>
#include <future>
#include <mutex>
#include <queue>

#include "multi-thread/thread_pool.h"

using hub::multi_thread::ThreadPool;
namespace {
struct Job {
    std::future<scn::Token> f;
    int runs = 0;        // written by the task, plain on purpose: the future must publish it
    bool throws = false;
    bool accepted = false;
    bool taken = false;
};
// Constructed before the pool, destroyed after it: looks at every future once the pool is gone.
struct Ledger {
    std::vector<std::unique_ptr<Job>> jobs;
    bool live = false;
    ~Ledger() {
        if (!live) return;
        for (size_t i = 0; i < jobs.size(); ++i) {
            Job &j = *jobs[i];
            if (!j.accepted || j.taken) continue;
            SIM_CHECK(j.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "no-result",
                      "the pool is destroyed and task %zu has neither run nor been reported as broken", i);
            check(i);
        }
    }
    void check(size_t i) {
        Job &j = *jobs[i];
        j.taken = true;
        bool broken = false, threw = false;
        int64_t v = -1;
        try {
            v = j.f.get().get();
        } catch (std::future_error const &e) {
            broken = e.code() == std::future_errc::broken_promise;
            SIM_CHECK(broken, "future-error", "task %zu: unexpected future error", i);
        } catch (std::logic_error const &e) {
            threw = std::string(e.what()) == "task " + std::to_string(i);
            SIM_CHECK(threw, "wrong-exception", "task %zu delivered the exception '%s'", i, e.what());
        }
        if (broken) {
            SIM_CHECK(j.runs == 0, "ran-broken", "task %zu ran %d times and reports a broken promise", i, j.runs);
            sim::probe("broken-promise");
        } else {
            SIM_CHECK(j.runs == 1, "run-count", "task %zu ran %d times", i, j.runs);
            SIM_CHECK(threw == j.throws, "wrong-result", "task %zu: exception %d, expected %d", i, threw, j.throws);
            if (!threw) SIM_CHECK(v == (int64_t)i * 3 + 1, "wrong-result", "task %zu returned %lld", i, (long long)v);
        }
    }
};
Ledger &ledger() {
    static Ledger l;
    return l;
}
void commit(ThreadPool &pool, size_t i, bool stall) {
    Job &j = *ledger().jobs[i];
    auto fn = [&j, i, stall](scn::Token const &t, std::string const &s, int k) {
        SIM_CHECK(t.get() == (int64_t)i && s == "argument of task number " + std::to_string(i) && k == (int)i * 3, "arguments",
                  "task %zu ran with other arguments than it was committed with", i);
        j.runs++;
        SIM_CHECK(sim::ctr_add(10 + i, 1) == 1, "run-count", "task %zu runs again", i);
        if (stall) scn::work(6);
        if (j.throws) throw std::logic_error("task " + std::to_string(i));
        return scn::Token(k + 1);
    };
    try {
        j.f = pool.commit(fn, scn::Token(i), "argument of task number " + std::to_string(i), (int)i * 3);
        j.accepted = true;
    } catch (std::runtime_error const &) {
        SIM_CHECK(false, "rejected", "a task was rejected although the queue is almost empty");
    }
}
void setup(size_t n) {
    ledger().live = true;
    for (size_t i = 0; i < n; ++i) {
        ledger().jobs.emplace_back(new Job);
        ledger().jobs.back()->throws = sim::pick(6) == 5;
    }
}
}  // namespace

// Tasks committed, all waited for, pool destroyed at exit.
SIM_SCENARIO(pool_all) {
    sim::Opt o;
    sim::configure(o);
    size_t n = sim::pick(9);
    setup(n);
    ThreadPool &pool = ThreadPool::get_instance();
    for (size_t i = 0; i < n; ++i) {
        commit(pool, i, sim::pick(4) == 3);
        if (sim::pick(4) == 3) scn::work(3);
        if (sim::pick(5) == 4) ledger().check(i);
    }
    for (size_t i = 0; i < n; ++i)
        if (!ledger().jobs[i]->taken) {
            auto &j = *ledger().jobs[i];
            j.f.wait();
            ledger().check(i);
            SIM_CHECK(j.runs == 1, "run-count", "task %zu ran %d times while the pool was alive", i, j.runs);
        }
}
// Pool destroyed with tasks queued or running.
SIM_SCENARIO(pool_exit) {
    sim::Opt o;
    sim::configure(o);
    size_t n = sim::pick(12);
    setup(n);
    ThreadPool &pool = ThreadPool::get_instance();
    for (size_t i = 0; i < n; ++i) commit(pool, i, sim::pick(2));
    scn::work(sim::pick(12));
    size_t w = sim::pick(n + 1);
    if (w) {
        ledger().jobs[w - 1]->f.wait();
        ledger().check(w - 1);
    }
}
// Tasks that wait for one another, no more than there are workers: an idle worker must not sleep while one is queued.
SIM_SCENARIO(pool_meet) {
    sim::Opt o;
    sim::configure(o);
    size_t workers = std::max(1u, std::thread::hardware_concurrency());
    std::mutex m;
    std::condition_variable cv;
    int rounds = 1 + (int)sim::pick(4);
    ThreadPool &pool = ThreadPool::get_instance();
    for (int r = 0; r < rounds; ++r) {
        size_t n = 1 + sim::pick(workers), there = 0;
        std::vector<std::future<void>> f;
        if (sim::pick(2)) scn::work(6);
        for (size_t i = 0; i < n; ++i) {
            f.push_back(pool.commit([&] {
                std::unique_lock<std::mutex> l(m);
                if (++there == n) cv.notify_all();
                cv.wait(l, [&] { return there == n; });
            }));
            if (sim::pick(4) == 3) scn::work(3);
        }
        for (auto &x : f) x.get();
        SIM_CHECK(there == n, "run-count", "%zu tasks ran, %zu were committed", there, n);
    }
}
// Several committers; tasks that commit tasks.
SIM_SCENARIO(pool_many) {
    sim::Opt o;
    sim::configure(o);
    size_t n = 2 + sim::pick(8), committers = 1 + sim::pick(3);
    setup(n);
    bool first_use_races = sim::pick(2);
    if (!first_use_races) ThreadPool::get_instance();
    std::atomic<size_t> next{0};
    std::atomic<int> inner{0};
    bool nested = sim::pick(3) == 2;
    {
        scn::Threads th;
        for (size_t c = 0; c < committers; ++c)
            th.go([&] {
                ThreadPool &pool = ThreadPool::get_instance();
                for (size_t i; (i = next.fetch_add(1)) < n;) {
                    commit(pool, i, false);
                    if (nested) {
                        auto f = pool.commit([&] { return ThreadPool::get_instance().commit([&] { inner.fetch_add(1); }); });
                        f.get().wait();
                    }
                    if (i % 2) {
                        ledger().jobs[i]->f.wait();
                        ledger().check(i);
                    }
                }
            });
        th.join();
    }
    if (nested) SIM_CHECK(inner.load() == (int)n, "run-count", "%d of %zu tasks committed from tasks ran", inner.load(), n);
    if (sim::pick(2))
        for (size_t i = 0; i < n; ++i)
            if (!ledger().jobs[i]->taken) {
                ledger().jobs[i]->f.wait();
                ledger().check(i);
            }
}
// A full queue refuses, and what it accepted still runs.
SIM_SCENARIO(pool_full) {
    sim::Opt o;
    o.races = false;
    o.budget = 8000000;
    sim::configure(o);
    ThreadPool &pool = ThreadPool::get_instance();
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    int ran = 0, accepted = 0, refused = 0;
    std::vector<std::future<void>> fs;
    int n = 1000 + sim::pick(60);
    for (int i = 0; i < n; ++i) {
        try {
            fs.push_back(pool.commit([&] {
                std::unique_lock<std::mutex> l(m);
                while (!open) cv.wait(l);
                ran++;
            }));
            accepted++;
        } catch (std::runtime_error const &) {
            refused++;
        }
    }
    {
        std::lock_guard<std::mutex> l(m);
        open = true;
    }
    cv.notify_all();
    for (auto &f : fs) f.get();
    SIM_CHECK(ran == accepted, "run-count", "%d tasks accepted, %d refused, %d ran", accepted, refused, ran);
    if (refused) sim::probe("refused");
}

// Threads that cannot be created and memory that runs out: told to the caller, and everything else goes on.
namespace {
ThreadPool *pool_or_failure() {
    for (;;) {
        try {
            return &ThreadPool::get_instance();
        } catch (std::exception const &) {
            sim::probe("no-pool");
        }
    }
}
}  // namespace
SIM_SCENARIO(pool_resources) {
    sim::Opt o;
    o.thread_fail = sim::pick(2);
    o.alloc_fail = sim::pick(2);
    sim::configure(o);
    size_t n = sim::pick(9), committers = 1 + sim::pick(2);
    setup(n);
    std::atomic<size_t> next{0};
    bool arm = sim::pick(2);
    auto work = [&] {
        ThreadPool &pool = *pool_or_failure();
        for (size_t i; (i = next.fetch_add(1)) < n;) {
            Job &j = *ledger().jobs[i];
            std::string text = "argument of task number " + std::to_string(i) + ", which is long";
            auto fn = [&j, i, arm](std::string const &s) {
                // memory also runs out for the worker while it is not running a task
                sim::alloc_faults(false);
                SIM_CHECK(s == "argument of task number " + std::to_string(i) + ", which is long", "arguments", "task %zu ran with other arguments than it was committed with", i);
                j.runs++;
                SIM_CHECK(sim::ctr_add(10 + i, 1) == 1, "run-count", "task %zu runs again", i);
                if (j.throws) throw std::logic_error("task " + std::to_string(i));
                scn::Token r((int)i * 3 + 1);
                if (arm) sim::alloc_faults(true);
                return r;
            };
            for (int k = 0;; ++k) {
                try {
                    if (k < 3) sim::alloc_faults(true);
                    auto f = pool.commit(fn, text);
                    sim::alloc_faults(false);
                    j.f = std::move(f);
                    j.accepted = true;
                    break;
                } catch (std::bad_alloc const &) {
                    sim::alloc_faults(false);
                    SIM_CHECK(sim::ctr_get(10 + i) == 0, "run-count", "task %zu was refused and runs", i);
                    sim::probe("commit-no-memory");
                }
            }
        }
    };
    {
        scn::Threads th;
        sim::thread_faults(false);
        for (size_t c = 1; c < committers; ++c) th.go(work);
        sim::thread_faults(true);
        work();
        th.join();
    }
    if (sim::pick(3))
        for (size_t i = 0; i < n; ++i) {
            auto &j = *ledger().jobs[i];
            j.f.wait();
            ledger().check(i);
        }
}
