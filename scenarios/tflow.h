// Generated task graphs for the task-graph scenarios: a model of the graph, the real tasks made from it, and
// a sequential interpreter that says how often each task must run. Instrumented code.
#pragma once
#include "common.h"

#include "taskflow/taskflow.hpp"

namespace tfl {
enum Type { STATIC, COND, DYN, MOD, EMPTY };
enum Mode { IMPLICIT, EXPLICIT, DETACH };

struct Flow;
struct Unit {
    int type{STATIC};
    std::vector<int> succ, strong;  // successors in order; predecessors that are not branches
    int weak{0};                    // predecessors that are branches
    std::vector<int> script;        // COND: what it selects, visit by visit, repeating
    int mode{IMPLICIT};             // DYN
    int stall{0};                   // work it does
    int nasync{0};                  // DYN: asynchronous tasks it starts in its own spawned graph
    std::unique_ptr<Flow> sub;      // DYN, MOD
    // Plain on purpose: the executor must order the accesses.
    int n{0};
    int async_done{0};
    inline int count() const;
};

struct Flow {
    std::vector<std::unique_ptr<Unit>> u;
    std::unique_ptr<tf::Taskflow> tf;
    std::function<void(Unit &, int)> on;  // optional hook: called in a task, 0 at its start, 1 at its end, 2 in an asynchronous task it started
    bool cancellable{false};              // a run may be cancelled: spawned graphs are joined incomplete then
    const char *name{"graph"};
    bool straight{true};  // no branches: every task once per run
    int style{0};         // the way dependencies are declared
    bool late{false};     // tasks get their work after they were wired

    int add(int type = STATIC) {
        u.emplace_back(new Unit);
        u.back()->type = type;
        return (int)u.size() - 1;
    }
    void edge(int a, int b) {
        u[a]->succ.push_back(b);
        if (u[a]->type == COND)
            u[b]->weak++;
        else
            u[b]->strong.push_back(a);
    }
    void set_hook(std::function<void(Unit &, int)> h) {
        on = h;
        for (auto &x : u)
            if (x->sub) x->sub->set_hook(h);
    }
    void set_cancellable() {
        cancellable = true;
        for (auto &x : u)
            if (x->sub) x->sub->set_cancellable();
    }
    void reset() {  // forget all executions
        for (auto &x : u) {
            x->n = x->async_done = 0;
            if (x->sub) x->sub->reset();
        }
    }
    bool none() const {
        for (auto &x : u)
            if (x->n || x->async_done || (x->sub && !x->sub->none())) return false;
        return true;
    }
    static bool complete(Unit const &x) {
        if ((x.type != DYN && x.type != MOD) || !x.sub) return true;
        if (x.type == DYN && x.mode == DETACH) return true;
        if (x.async_done != x.count() * x.nasync) return false;
        for (auto &c : x.sub->u)
            if (c->type != EMPTY && (c->count() != x.count() || !complete(*c))) return false;
        return true;
    }
    // Everything that belongs to a finished run of x is done, detached work included.
    static void check_all(Unit const &x, const char *when) {
        if (!x.sub) return;
        int n = x.count();
        SIM_CHECK(x.async_done == n * x.nasync, "run-count", "%s: %d asynchronous tasks of a spawned graph ran, expected %d", when, x.async_done, n * x.nasync);
        for (size_t i = 0; i < x.sub->u.size(); ++i) {
            if (x.sub->u[i]->type == EMPTY) continue;
            SIM_CHECK(x.sub->u[i]->count() == n, "run-count", "%s: a task of a %s graph ran %d times, its parent %d times", when,
                      x.type == MOD ? "composed" : x.mode == DETACH ? "detached" : "spawned", x.sub->u[i]->count(), n);
            check_all(*x.sub->u[i], when);
        }
    }
    void check_counts(std::vector<int> const &want, const char *when) const {
        for (size_t i = 0; i < u.size(); ++i) {
            if (u[i]->type == EMPTY) continue;
            SIM_CHECK(u[i]->count() == want[i], "run-count", "%s: task %zu of the %s ran %d times, expected %d", when, i, name, u[i]->count(), want[i]);
            check_all(*u[i], when);
        }
    }
    void enter(Unit &x) {
        if (on) on(x, 0);
        int k = x.n + 1;
        for (int p : x.strong) {
            Unit &q = *u[p];
            if (q.type == EMPTY) continue;
            if (x.weak) {  // may also be selected by a branch
                SIM_CHECK(q.count() > 0, "order", "a task of the %s starts although neither its predecessor nor a branch has", name);
                continue;
            }
            bool ok = straight ? q.count() == k : q.count() >= k;
            SIM_CHECK(ok, "order", "a task of the %s starts its execution %d while its predecessor has finished %d", name, k, q.count());
            SIM_CHECK(complete(q), "order", "a task of the %s starts before the work its predecessor spawned is finished", name);
        }
    }
    void leave(Unit &x) {
        x.n++;
        if (on) on(x, 1);
    }
    tf::Task emit_one(tf::FlowBuilder &fb, int i, bool later = false) {
        Unit &x = *u[i];
        if (later && x.type != MOD) return fb.placeholder();
        return with_work(x, [&](auto &&work) { return fb.emplace(std::forward<decltype(work)>(work)); }, fb);
    }
    template <typename Put>
    tf::Task with_work(Unit &x, Put put, tf::FlowBuilder &fb) {
        switch (x.type) {
            case EMPTY: return fb.placeholder();
            case COND:
                return put([this, &x]() -> int {
                    enter(x);
                    scn::work(x.stall);
                    int d = x.script[x.n % x.script.size()];
                    leave(x);
                    return d;
                });
            case DYN:
                return put([this, &x](tf::Subflow &sf) {
                    enter(x);
                    // what an earlier execution detached may still run: counters are compared at the end of the run
                    x.sub->emit(sf);
                    for (int k = 0; k < x.nasync; ++k) {
                        if (k % 2)
                            sf.silent_async([this, &x] { bump(x); });
                        else
                            sf.async([this, &x] { bump(x); });
                    }
                    scn::work(x.stall);
                    x.n++;
                    if (x.mode == EXPLICIT) {
                        sf.join();
                        SIM_CHECK(cancellable || complete(x), "join", "join returned before the spawned graph finished");
                        SIM_CHECK(!sf.joinable(), "join", "joinable after join");
                    } else if (x.mode == DETACH) {
                        sf.detach();
                    }
                    if (on) on(x, 1);
                });
            case MOD: return fb.composed_of(*x.sub->tf);
            default:
                return put([this, &x] {
                    enter(x);
                    scn::work(x.stall);
                    leave(x);
                });
        }
    }
    std::mutex am;
    void bump(Unit &x) {
        if (on) on(x, 2);
        std::lock_guard<std::mutex> l(am);
        x.async_done++;
    }
    std::vector<tf::Task> emit(tf::FlowBuilder &fb) {
        std::vector<tf::Task> t;
        for (size_t i = 0; i < u.size(); ++i) t.push_back(emit_one(fb, (int)i, late));
        if (style == 4) {  // as chains that together hold every edge once, edges of a task in order
            std::vector<size_t> used(u.size());
            for (size_t i = 0; i < u.size();) {
                if (used[i] == u[i]->succ.size()) {
                    ++i;
                    continue;
                }
                std::vector<tf::Task> chain{t[i]};
                for (size_t j = i; used[j] < u[j]->succ.size();) {
                    j = (size_t)u[j]->succ[used[j]++];
                    chain.push_back(t[j]);
                }
                fb.linearize(chain);
            }
        } else
            for (size_t i = 0; i < u.size(); ++i) {
                auto &v = u[i]->succ;
                if (style == 2 && v.size() == 2)
                    t[i].precede(t[v[0]], t[v[1]]);
                else if (style == 2 && v.size() == 3)
                    t[i].precede(t[v[0]], t[v[1]], t[v[2]]);
                else
                    for (int s : v) {
                        if (style == 1)
                            t[s].succeed(t[i]);
                        else if (style == 3)
                            fb.linearize({t[i], t[s]});
                        else
                            t[i].precede(t[s]);
                    }
            }
        if (late)
            for (size_t i = 0; i < u.size(); ++i)
                if (u[i]->type != MOD && u[i]->type != EMPTY) with_work(*u[i], [&](auto &&work) { return t[i].work(std::forward<decltype(work)>(work)); }, fb);
        return t;
    }
    void build() {
        tf = std::make_unique<tf::Taskflow>();
        for (auto &x : u)
            if (x->type == MOD) x->sub->build();
        emit(*tf);
    }
};

// Module tasks have no body of their own to count in: their executions are those of their first task.
inline int Unit::count() const { return type == MOD ? sub->u[0]->count() : n; }

struct Interp {
    Flow const &f;
    std::vector<int> n;
    std::vector<std::vector<int>> after;  // after[r]: executions of each task in the first r runs
    explicit Interp(Flow const &g) : f(g), n(g.u.size()) { after.push_back(n); }
    std::vector<int> const &upto(size_t runs) {
        while (after.size() <= runs) one();
        return after[runs];
    }
    void one() {
        std::vector<int> cnt(f.u.size()), todo;
        for (size_t i = 0; i < f.u.size(); ++i) {
            cnt[i] = (int)f.u[i]->strong.size();
            if (!cnt[i] && !f.u[i]->weak) todo.push_back((int)i);
        }
        for (int steps = 0; !todo.empty(); ++steps) {
            SIM_CHECK(steps < 5000, "scenario", "the generated graph does not end");
            int i = todo.back();
            todo.pop_back();
            Unit const &x = *f.u[i];
            cnt[i] = (int)x.strong.size();
            if (x.type == COND) {
                int d = x.script[n[i] % x.script.size()];
                if (d >= 0 && d < (int)x.succ.size()) todo.push_back(x.succ[d]);
            } else
                for (int s : x.succ)
                    if (--cnt[s] == 0) todo.push_back(s);
            n[i]++;
        }
        after.push_back(n);
    }
};

struct Gen {
    int budget{14};    // tasks left to create
    int depth{0};      // nesting
    bool branches{true}, nested{true}, modules{true}, detach{true}, async{true};

    std::unique_ptr<Flow> dag(int lo, int hi, int level, bool mod = false) {
        auto f = std::make_unique<Flow>();
        f->name = "nested graph";
        declare(*f);
        int n = (int)scn::range(lo, hi);
        for (int i = 0; i < n; ++i) {
            int a = node(*f, level + 1, mod);
            if (a == 0 && f->u[0]->type == EMPTY) f->u[0]->type = STATIC;
            for (int j = 0; j < a; ++j)
                if (sim::pick(3) == 2) f->edge(j, a);
        }
        return f;
    }
    void declare(Flow &f) {
        f.style = (int)sim::pick(5);
        f.late = sim::pick(4) == 3;
    }
    int node(Flow &f, int level, bool allow_mod = true) {
        budget--;
        int t = STATIC;
        unsigned k = sim::pick(10);
        if (nested && level < 3 && k >= 8)
            t = DYN;
        else if (modules && allow_mod && level < 2 && k == 7)
            t = MOD;
        else if (k == 6)
            t = EMPTY;
        int i = f.add(t);
        Unit &x = *f.u[i];
        x.stall = sim::pick(4) == 3 ? 3 : 0;
        if (t == DYN) {
            x.mode = (int)sim::pick(detach ? 3 : 2);
            x.sub = dag(x.mode == IMPLICIT ? 0 : 1, 3, level);
            if (async && x.mode != DETACH && sim::pick(4) == 3) x.nasync = (int)sim::pick(3);
        } else if (t == MOD) {
            x.sub = dag(1, 3, level, true);
        }
        return i;
    }
    // A sequence of blocks entered at the returned first task; `last` is its last task.
    int sequence(Flow &f, int &last) {
        int first = node(f, 0);
        last = first;
        int blocks = (int)sim::pick(4);
        for (int b = 0; b < blocks && budget > 0; ++b) {
            unsigned k = sim::pick(branches ? 4 : 2);
            if (k == 0) {
                int x = node(f, 0);
                f.edge(last, x);
                last = x;
            } else if (k == 1) {  // fan out and in
                int w = 1 + (int)sim::pick(3);
                std::vector<int> mid;
                for (int i = 0; i < w; ++i) {
                    int m = node(f, 0);
                    f.edge(last, m);
                    mid.push_back(m);
                }
                int j = node(f, 0);
                for (int m : mid) f.edge(m, j);
                if (sim::pick(2)) f.edge(last, j);
                last = j;
            } else if (k == 2 && sim::pick(2)) {  // nested loops, their first tasks both follow a task and are selected by branches
                f.straight = false;
                bool d = detach;
                detach = false;
                int outer = node(f, 0), inner = node(f, 0), mid = node(f, 0);
                detach = d;
                auto cond = [&](int alts) {
                    int c = f.add(COND);
                    int again = (int)sim::pick(3);
                    for (int i = 0; i < again; ++i) f.u[c]->script.push_back(0);
                    if (alts == 3 && sim::pick(2)) f.u[c]->script.push_back(2);
                    f.u[c]->script.push_back(1);
                    return c;
                };
                f.edge(last, outer);
                f.edge(outer, inner);
                int ci = cond(2);
                f.edge(inner, ci);
                f.edge(ci, inner);  // 0: once more
                f.edge(ci, mid);    // 1: on
                int co = cond(3);
                f.edge(mid, co);
                f.edge(co, outer);  // 0: once more from the start
                int next = node(f, 0);
                f.edge(co, next);   // 1: on
                f.edge(co, inner);  // 2: once more, without the outer task
                last = next;
            } else if (k == 2) {  // loop: enter -> body ... -> condition -> (body | next)
                f.straight = false;
                int enter = f.add(COND);
                f.u[enter]->script = {0};
                f.edge(last, enter);
                bool d = detach;
                detach = false;  // an earlier iteration's detached tasks would overlap the next one's
                int body = node(f, 0), end = body;
                if (sim::pick(2)) {
                    int a = node(f, 0), c = node(f, 0);
                    f.edge(body, a);
                    f.edge(body, c);
                    end = f.add(STATIC);
                    f.edge(a, end);
                    f.edge(c, end);
                }
                detach = d;
                int c = f.add(COND);
                int again = (int)sim::pick(3);
                for (int i = 0; i < again; ++i) f.u[c]->script.push_back(0);
                f.u[c]->script.push_back(1);
                f.edge(end, c);
                f.edge(enter, body);
                f.edge(c, body);
                int next = node(f, 0);
                f.edge(c, next);
                last = next;
            } else {  // branch
                f.straight = false;
                int c = f.add(COND);
                f.edge(last, c);
                int alts = 1 + (int)sim::pick(3);
                int join = node(f, 0);
                bool both = sim::pick(4) == 3;  // a task that needs all alternatives of one run
                int all = both ? f.add(STATIC) : -1;
                for (int a = 0; a < alts; ++a) {
                    int x = node(f, 0);
                    f.edge(c, x);
                    int e = f.add(COND);
                    f.u[e]->script = {0};
                    f.edge(x, e);
                    f.edge(e, join);
                    if (both) f.edge(x, all);
                }
                int len = 1 + (int)sim::pick(4);
                for (int i = 0; i < len; ++i) f.u[c]->script.push_back((int)sim::pick(alts + 2) - (sim::pick(6) == 5));
                last = join;
            }
        }
        return first;
    }
    std::unique_ptr<Flow> flow() {
        auto f = std::make_unique<Flow>();
        declare(*f);
        if (!branches) {
            if (sim::pick(2)) {  // any acyclic graph
                int n = 1 + (int)sim::pick(8);
                for (int i = 0; i < n; ++i) {
                    int a = node(*f, 0);
                    for (int j = 0; j < a; ++j)
                        if (sim::pick(3) == 2) f->edge(j, a);
                }
                return f;
            }
        }
        int seqs = 1 + (int)sim::pick(3);
        std::vector<int> lasts;
        for (int s = 0; s < seqs && budget > 0; ++s) {
            int last;
            sequence(*f, last);
            lasts.push_back(last);
        }
        if (lasts.size() > 1 && sim::pick(2)) {
            int j = f->add(STATIC);
            for (int l : lasts) f->edge(l, j);
        }
        return f;
    }
};
}  // namespace tfl
