// C17: asynchronous and dynamically spawned tasks. Real code: src/taskflow/core (executor, subflows, object pool).
#include <future>
#include <optional>

#include "tflow.h"

namespace {
enum Kind { STATIC, DYN, SF_ASYNC, SF_SILENT, EX_ASYNC, EX_SILENT };
enum Mode { IMPLICIT, EXPLICIT, DETACH };
struct Node {
    Kind kind{STATIC};
    Mode mode{IMPLICIT};
    bool chain{false};  // spawned tasks one after the other
    int id{0}, stall{0}, type{0};
    std::vector<std::unique_ptr<Node>> kids;
    int began{0}, ended{0};  // plain: ordered by the executor
    bool waited() const { return kind != EX_ASYNC && kind != EX_SILENT; }
};
struct Tree {
    std::unique_ptr<Node> root;
    int made{0}, budget{12};
    bool detach{true}, ex_kids{true};

    std::unique_ptr<Node> make(Kind k, int depth) {
        std::unique_ptr<Node> x(new Node);
        x->kind = k;
        x->id = made++;
        x->stall = sim::pick(4) == 3 ? 3 : 0;
        x->type = (int)sim::pick(4);
        x->chain = sim::pick(4) == 3;
        if (k == DYN) x->mode = (Mode)sim::pick(detach ? 3 : 2);
        int n = depth < 4 ? (int)sim::pick(k == DYN ? 5 : 3) : 0;
        for (int i = 0; i < n && made < budget; ++i) {
            Kind c;
            if (k == DYN) {
                c = (Kind)sim::pick(ex_kids ? 6 : 4);
                if (x->mode == DETACH && (c == SF_ASYNC || c == SF_SILENT)) c = STATIC;
            } else if (ex_kids && sim::pick(2))
                c = sim::pick(2) ? EX_ASYNC : EX_SILENT;
            else
                break;
            x->kids.push_back(make(c, depth + 1));
        }
        if (k == DYN && x->mode == DETACH) {
            bool any = false;
            for (auto &c : x->kids) any |= c->kind == STATIC || c->kind == DYN;
            if (!any) x->mode = EXPLICIT;
        }
        return x;
    }
};
// All that must have ended when x has been joined n times.
bool joined(Node const &x, int n) {
    if (x.began != n || x.ended != n) return false;
    if (x.kind == DYN && x.mode == DETACH) return true;
    for (auto &k : x.kids)
        if (k->waited() && !joined(*k, n)) return false;
    return true;
}
void check_all(Node const &x, int n, bool everything, const char *when) {
    SIM_CHECK(x.began == n && x.ended == n, "run-count", "%s: a task of kind %d began %d and ended %d times, expected %d", when, x.kind, x.began, x.ended, n);
    for (auto &k : x.kids)
        if (everything || k->waited()) check_all(*k, n, everything, when);
}
struct Play {
    tf::Executor &ex;
    // the future of an asynchronous task, by what it returns
    struct Fut {
        Node *x;
        tf::Future<void> v;
        tf::Future<std::optional<int>> i;
        tf::Future<std::optional<std::string>> s;
        tf::Future<std::optional<std::unique_ptr<int>>> p;
        bool ready() {
            auto z = std::chrono::seconds(0);
            switch (x->type) {
                case 0: return v.wait_for(z) == std::future_status::ready;
                case 1: return i.wait_for(z) == std::future_status::ready;
                case 2: return s.wait_for(z) == std::future_status::ready;
                default: return p.wait_for(z) == std::future_status::ready;
            }
        }
        void check(int n) {
            bool ok = true;
            switch (x->type) {
                case 0: v.get(); break;
                case 1: {
                    auto r = i.get();
                    ok = r && *r == x->id + 1000;
                    break;
                }
                case 2: {
                    auto r = s.get();
                    ok = r && *r == std::string(40, 'a') + std::to_string(x->id);
                    break;
                }
                default: {
                    auto r = p.get();
                    ok = r && *r && **r == x->id;
                }
            }
            SIM_CHECK(ok, "async-value", "an asynchronous task did not deliver its value");
            SIM_CHECK(x->began == n && x->ended == n, "async-value", "a future was ready after %d of %d executions of its task", x->ended, n);
        }
    };
    template <typename S>
    Fut async(S &s, Node &x, int round) {
        Fut f;
        f.x = &x;
        switch (x.type) {
            case 0: f.v = s.async([this, &x, round] { body(x, round); }); break;
            case 1:
                f.i = s.async(
                    [this, &x, round](int add) -> int {
                        body(x, round);
                        return x.id + add;
                    },
                    1000);
                break;
            case 2:
                f.s = s.async(
                    [this, &x, round](std::string a) -> std::string {
                        body(x, round);
                        return a + std::to_string(x.id);
                    },
                    std::string(40, 'a'));
                break;
            default:
                f.p = s.async([this, &x, round]() -> std::unique_ptr<int> {
                    body(x, round);
                    return std::make_unique<int>(x.id);
                });
        }
        return f;
    }
    // submissions to the executor from inside a task
    void submit(Node &x, int round) {
        for (auto &k : x.kids) {
            if (k->kind == EX_ASYNC) async(ex, *k, round);  // its future is dropped: that must not matter
            if (k->kind == EX_SILENT) ex.silent_async([this, c = k.get(), round] { body(*c, round); });
        }
    }
    void body(Node &x, int round) {
        x.began++;
        submit(x, round);
        scn::work(x.stall);
        x.ended++;
    }
    void spawn(Node &x, tf::Subflow &sf, int round) {
        x.began++;
        SIM_CHECK(sf.joinable(), "join", "a new spawned graph is not joinable");
        submit(x, round);
        std::vector<Fut> futs;
        tf::Task last;
        bool first = true;
        Node *before = nullptr;
        for (auto &kp : x.kids) {
            Node *k = kp.get();
            if (k->kind == SF_ASYNC) futs.push_back(async(sf, *k, round));
            if (k->kind == SF_SILENT) sf.silent_async([this, k, round] { body(*k, round); });
            if (k->kind == STATIC || k->kind == DYN) {
                Node *b = x.chain ? before : nullptr;
                tf::Task t = emit(sf, *k, b, round);
                if (b) last.precede(t);
                (void)first;
                last = t;
                before = k;
            }
        }
        scn::work(x.stall);
        x.ended++;
        if (x.mode == EXPLICIT) {
            sf.join();
            SIM_CHECK(!sf.joinable(), "join", "joinable after join");
            SIM_CHECK(joined(x, round), "join", "join returned before all tasks of the spawned graph had finished");
            for (auto &f : futs) {
                SIM_CHECK(f.ready(), "join", "a future is not ready after the join");
                f.check(round);
            }
        } else if (x.mode == DETACH)
            sf.detach();
    }
    // `round` is 0 if it comes from the root (taken when it runs)
    tf::Task emit(tf::FlowBuilder &fb, Node &x, Node *before, int round) {
        auto order = [&x, before, round] {
            if (before) SIM_CHECK(joined(*before, round), "order", "a spawned task started before its predecessor and what that joined had finished");
        };
        if (x.kind == DYN)
            return fb.emplace([this, &x, order, round](tf::Subflow &sf) {
                order();
                spawn(x, sf, round);
            });
        return fb.emplace([this, &x, order, round] {
            order();
            body(x, round);
        });
    }
};
}  // namespace

// Nests of spawned graphs with asynchronous tasks of both kinds at any depth.
SIM_SCENARIO(spawn_nests) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    Tree tr;
    tr.detach = sim::pick(2);
    tr.ex_kids = sim::pick(2);
    tr.budget = 4 + (int)sim::pick(14);
    int roots = 1 + (int)sim::pick(3), runs = 1 + (int)sim::pick(2);
    std::vector<std::unique_ptr<Node>> r;
    for (int i = 0; i < roots; ++i) r.push_back(tr.make(DYN, 0));
    int after = 0, round = 0;
    bool all = sim::pick(2), destroy = sim::pick(3) == 2;
    tf::Taskflow t;
    {
        tf::Executor ex(workers);
        Play p{ex};
        auto begin = t.emplace([&] {
            round++;
            for (auto &x : r) SIM_CHECK(x->began == round - 1, "order", "a spawning task started before its predecessor");
        });
        auto end = t.emplace([&] {
            after++;
            for (auto &x : r) SIM_CHECK(joined(*x, round), "order", "the successor of a spawning task started before all it had spawned and joined was finished");
        });
        for (auto &x : r) {
            auto a = t.emplace([&p, &x, &round](tf::Subflow &sf) { p.spawn(*x, sf, round); });
            a.succeed(begin);
            a.precede(end);
        }
        for (int k = 1; k <= runs; ++k) {
            ex.run(t).wait();
            SIM_CHECK(after == k, "run-count", "the successor ran %d times in %d runs", after, k);
            for (auto &x : r) check_all(*x, k, false, "after the run");
            if (all || k < runs) {
                ex.wait_for_all();
                for (auto &x : r) check_all(*x, k, true, "after waiting for all");
                SIM_CHECK(ex.num_topologies() == 0, "count", "%zu submissions are counted after waiting for all", ex.num_topologies());
            }
        }
        if (!destroy) ex.wait_for_all();
        // or the executor's destructor waits
    }
    for (auto &x : r) check_all(*x, runs, true, "after the executor was destroyed");
}

// Asynchronous tasks submitted by several threads, each submitting more from inside.
SIM_SCENARIO(async_nests) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    unsigned threads = 1 + sim::pick(3), each = 1 + sim::pick(4);
    std::vector<std::vector<std::unique_ptr<Node>>> r(threads);
    Tree tr;
    for (auto &v : r)
        for (unsigned i = 0; i < each; ++i) {
            tr.made = 0;
            tr.budget = 1 + (int)sim::pick(5);
            v.push_back(tr.make(sim::pick(3) == 2 ? EX_SILENT : EX_ASYNC, 0));
        }
    bool get = sim::pick(2), main_too = sim::pick(2);
    int waits = (int)sim::pick(2);
    {
        tf::Executor ex(workers);
        Play p{ex};
        auto work = [&](unsigned th) {
            std::vector<Play::Fut> f;
            for (auto &x : r[th]) {
                if (x->kind == EX_ASYNC)
                    f.push_back(p.async(ex, *x, 1));
                else
                    ex.silent_async([&p, c = x.get()] { p.body(*c, 1); });
                if (waits && x->id % 2) {
                    ex.wait_for_all();
                    check_all(*x, 1, true, "after waiting for all from the submitting thread");
                }
            }
            if (get)
                for (auto &x : f) x.check(1);
        };
        scn::Threads t;
        for (unsigned i = main_too; i < threads; ++i) t.go([&, i] { work(i); });
        if (main_too) work(0);
        t.join();
        ex.wait_for_all();
        for (auto &v : r)
            for (auto &x : v) check_all(*x, 1, true, "after waiting for all");
        SIM_CHECK(ex.num_topologies() == 0, "count", "%zu submissions are counted after waiting for all", ex.num_topologies());
        SIM_CHECK(ex.this_worker_id() == -1, "worker", "a thread outside the executor has worker number %d", ex.this_worker_id());
    }
}
