// C14: semaphores and critical sections. Real code: src/taskflow/core (semaphore, critical section, executor).
#include "tflow.h"

namespace {
struct Sem {
    std::unique_ptr<tf::Semaphore> s;
    int limit;
    int slot;       // simulator counter: tasks holding it now
    int plain = 0;  // changed by its holders; only when the limit is 1, so that they are ordered
    void enter() {
        int64_t v = sim::ctr_add(slot, 1);
        SIM_CHECK(v <= limit, "limit", "%lld tasks run under a semaphore of %d", (long long)v, limit);
        if (limit == 1) plain++;
    }
    void leave() {
        if (limit == 1) plain++;
        sim::ctr_add(slot, -1);
    }
};
struct Work {
    tf::Taskflow tf;
    struct One {
        int n = 0;  // executions: plain
        int kids = 0;
    };
    std::vector<std::unique_ptr<One>> tasks;
    std::vector<std::unique_ptr<tf::Taskflow>> modules;
    int runs = 0;
    One *add() {
        tasks.emplace_back(new One);
        return tasks.back().get();
    }
};
struct World {
    std::vector<std::unique_ptr<Sem>> sems;
    std::vector<std::unique_ptr<Work>> works;

    // the semaphores a task takes: none, one or several, in any order
    std::vector<Sem *> some() {
        std::vector<Sem *> v;
        size_t first = sim::pick(sems.size());
        v.push_back(sems[first].get());
        for (size_t i = 1; i < sems.size(); ++i)
            if (sim::pick(2)) v.push_back(sems[(first + i) % sems.size()].get());
        return v;
    }
    static void hold(std::vector<Sem *> const &v, int stall) {
        for (auto *s : v) s->enter();
        scn::work(stall);
        for (auto *s : v) s->leave();
    }
    static void guard(tf::Task t, std::vector<Sem *> const &v) {
        for (auto *s : v) t.acquire(*s->s);
        for (auto *s : v) t.release(*s->s);
    }
    // A task that keeps a semaphore while it waits for the tasks it spawned, together with tasks that wait for
    // tasks needing a semaphore, is the business of the scenario held_across_join.
    bool holders{false};
    void fill(Work &w) {
        int n = 1 + (int)sim::pick(6);
        tf::Task last;
        for (int i = 0; i < n; ++i) {
            auto *o = w.add();
            int stall = sim::pick(3) == 2 ? 4 : 0;
            tf::Task t, first;
            int kind = (int)sim::pick(7);
            if (kind == 6 && holders) kind = 4;
            if (kind == 4 && !holders) kind = 6;
            switch (kind) {
                default: {  // plain task under some semaphores
                    auto v = some();
                    first = t = w.tf.emplace([o, v, stall] {
                        hold(v, stall);
                        o->n++;
                    });
                    guard(t, v);
                    break;
                }
                case 3: {  // acquired by one task, released by its successor
                    auto *s = sems[sim::pick(sems.size())].get();
                    first = w.tf.emplace([s] { s->enter(); });
                    t = w.tf.emplace([o, s] {
                        s->leave();
                        o->n++;
                    });
                    first.acquire(*s->s);
                    t.release(*s->s);
                    first.precede(t);
                    break;
                }
                case 4: {  // a task that spawns others, with the semaphore around all of them
                    auto v = some();
                    first = t = w.tf.emplace([o, v](tf::Subflow &sf) {
                        for (auto *s : v) s->enter();
                        for (int k = 0; k < 2; ++k)
                            sf.emplace([o, v, k] {
                                if (k == 0) o->kids++;
                            });
                        sf.join();
                        for (auto *s : v) s->leave();
                        o->n++;
                    });
                    guard(t, v);
                    break;
                }
                case 5: {  // spawned tasks each under semaphores
                    std::vector<Sem *> v[3];
                    for (auto &x : v) x = some();
                    bool detach = holders || sim::pick(2);
                    auto *k1 = w.add(), *k2 = w.add(), *k3 = w.add();
                    auto a = v[0], b = v[1], c = v[2];
                    first = t = w.tf.emplace([o, a, b, c, k1, k2, k3, detach](tf::Subflow &sf) {
                        guard(sf.emplace([a, k1] { hold(a, 2), k1->n++; }), a);
                        guard(sf.emplace([b, k2] { hold(b, 0), k2->n++; }), b);
                        guard(sf.emplace([c, k3] { hold(c, 1), k3->n++; }), c);
                        o->n++;
                        if (detach) sf.detach();
                    });
                    break;
                }
                case 6: {  // composed graph
                    auto v = some();
                    w.modules.emplace_back(new tf::Taskflow);
                    auto *inner = w.add();
                    auto &m = *w.modules.back();
                    guard(m.emplace([o, inner, v] {
                        hold(v, 1);
                        o->n++;
                        inner->n++;
                    }),
                          v);
                    first = t = w.tf.composed_of(m);
                    break;
                }
            }
            if (i && sim::pick(3) == 2) last.precede(first);
            last = t;
        }
    }
};
}  // namespace

SIM_SCENARIO(semaphores) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    tf::Executor ex(workers);
    int rounds = 1 + (int)sim::pick(2);
    for (int r = 0; r < rounds; ++r) {
        World w;
        int ns = 1 + (int)sim::pick(3);
        for (int i = 0; i < ns; ++i) {
            w.sems.emplace_back(new Sem);
            w.sems[i]->limit = 1 + (int)sim::pick(2);
            w.sems[i]->slot = 40 + i;
            sim::ctr_set(40 + i, 0);
            w.sems[i]->s = std::make_unique<tf::Semaphore>(w.sems[i]->limit);
        }
        w.holders = sim::pick(2);
        int nw = 1 + (int)sim::pick(2);
        for (int i = 0; i < nw; ++i) {
            w.works.emplace_back(new Work);
            w.works[i]->runs = 1 + (int)sim::pick(2);
            w.fill(*w.works[i]);
        }
        std::vector<tf::Future<void>> f;
        for (auto &x : w.works) f.push_back(ex.run_n(x->tf, x->runs));
        bool all = sim::pick(2);
        if (all) ex.wait_for_all();
        for (auto &x : f) x.wait();
        for (auto &x : w.works)
            for (size_t i = 0; i < x->tasks.size(); ++i)
                SIM_CHECK(x->tasks[i]->n == x->runs, "run-count", "task %zu under semaphores ran %d times in %d runs", i, x->tasks[i]->n, x->runs);
        for (auto &s : w.sems) SIM_CHECK(s->s->count() == s->limit, "count", "a semaphore of %d counts %d after all work has finished", s->limit, s->s->count());
        // everything is destroyed here, while the executor lives on
    }
}

SIM_SCENARIO(critical) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    int limit = 1 + (int)sim::pick(2);
    int n = 1 + (int)sim::pick(6), runs = 1 + (int)sim::pick(3);
    int plain = 0;
    std::vector<int> ran(n);
    tf::Executor ex(workers);
    tf::Taskflow a, b;
    tf::CriticalSection cs(limit);
    sim::ctr_set(40, 0);
    std::vector<tf::Task> ts;
    for (int i = 0; i < n; ++i) {
        tf::Task t = (i % 2 ? a : b).emplace([&, i] {
            int64_t v = sim::ctr_add(40, 1);
            SIM_CHECK(v <= limit, "limit", "%lld tasks inside a critical section of %d", (long long)v, limit);
            if (limit == 1) plain++;
            scn::work(i);
            ran[i]++;
            sim::ctr_add(40, -1);
        });
        ts.push_back(t);
    }
    for (int i = 0; i < n;) {  // added one by one or several at once
        int k = std::min(n - i, 1 + (int)sim::pick(4));
        if (k == 1) cs.add(ts[i]);
        if (k == 2) cs.add(ts[i], ts[i + 1]);
        if (k == 3) cs.add(ts[i], ts[i + 1], ts[i + 2]);
        if (k == 4) cs.add(ts[i], ts[i + 1], ts[i + 2], ts[i + 3]);
        i += k;
    }
    auto f = ex.run_n(a, runs), g = ex.run_n(b, runs);
    f.wait();
    g.wait();
    for (int i = 0; i < n; ++i) SIM_CHECK(ran[i] == runs, "run-count", "task %d of a critical section ran %d times in %d runs", i, ran[i], runs);
    if (limit == 1) SIM_CHECK(plain == n * runs, "lost-effect", "%d of %d effects of a critical section are left", plain, n * runs);
    SIM_CHECK(cs.count() == limit, "count", "a critical section of %d counts %d after all work has finished", limit, cs.count());
}

// A task keeps a semaphore while it waits for the tasks it spawned; another one waits for a spawned task that needs it.
SIM_SCENARIO(held_across_join) {
    sim::Opt o;
    sim::configure(o);
    tf::Executor ex(1 + sim::pick(3));
    tf::Semaphore s(1);
    tf::Taskflow f;
    int kid = 0, needs = 0;
    auto a = f.emplace([&](tf::Subflow &sf) { sf.emplace([&] { kid++; }); });
    a.acquire(s);
    a.release(s);
    f.emplace([&](tf::Subflow &sf) {
        auto t = sf.emplace([&] { needs++; });
        t.acquire(s);
        t.release(s);
    });
    ex.run(f).wait();
    SIM_CHECK(kid == 1 && needs == 1, "run-count", "spawned tasks ran %d and %d times in a run", kid, needs);
    SIM_CHECK(s.count() == 1, "count", "a semaphore of 1 counts %d after all work has finished", s.count());
}
