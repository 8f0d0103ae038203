// C08: fork-join helpers. Real code: src/multi-thread/multi-thread.hpp on the simulated threads.
#include "common.h"
#include "multi-thread/multi-thread.hpp"

using namespace hub::multi_thread;
namespace {
void opts(bool thread_fail) {
    sim::Opt o;
    o.thread_fail = thread_fail;
    sim::configure(o);
}
// Stateful callables: a helper that moves from one leaves an empty one behind for the next thread.
struct RangeJob {
    std::vector<int> *hits;
    scn::Token tok;
    std::string tag{"a string long enough to live on the heap"};
    void operator()(size_t b, size_t e) {
        SIM_CHECK(tok.get() == 7 && tag.size() == 40, "moved-callable", "a thread received a callable that had been moved from");
        SIM_CHECK(b <= e && e <= hits->size(), "bad-range", "share [%zu,%zu) of %zu items", b, e, hits->size());
        for (size_t i = b; i < e; ++i) {
            (*hits)[i]++;
            if (sim::pick(4) == 3) sim::yield();
        }
    }
};
struct Flags {
    std::vector<int> started, finished;  // per invocation
};

// Expected: all work done when the call returns; with an injected thread-creation failure an
// exception derived from std::exception and nothing still running.
template <typename F>
bool guarded(F &&f) {
    try {
        f();
        return true;
    } catch (std::exception const &) {
        return false;
    }
}
std::atomic<int> g_running{0};
struct Running {
    Running() { sim::ctr_add(0, 1); }
    ~Running() { sim::ctr_add(0, -1); }
};
}  // namespace

SIM_SCENARIO(loop) {
    opts(false);
    size_t n = sim::pick(3) ? sim::pick(12) : sim::pick(41);
    size_t th = 1 + sim::pick(8);
    std::vector<int> hits(n, 0);
    sim::note("multi_threads_loop(%zu items, %zu threads)", n, th);
    switch (sim::pick(3)) {
        case 0: {
            auto job = [&](size_t b, size_t e) {
                SIM_CHECK(b <= e && e <= n, "bad-range", "share [%zu,%zu) of %zu items", b, e, n);
                for (size_t i = b; i < e; ++i) {
                    hits[i]++;
                    if (sim::pick(4) == 3) sim::yield();
                }
                sim::ctr_add(1, 1);
            };
            multi_threads_loop(n, th, job);
            break;
        }
        case 1:
            multi_threads_loop(n, th, RangeJob{&hits, scn::Token(7)});
            break;
        default: {
            std::function<void(size_t, size_t)> job = RangeJob{&hits, scn::Token(7)};
            if (sim::pick(2))
                multi_threads_loop(n, th, std::move(job));
            else
                multi_threads_loop(n, th, job);
        }
    }
    for (size_t i = 0; i < n; ++i)
        SIM_CHECK(hits[i] == 1, "item-count", "item %zu of %zu was executed %d times (%zu threads)", i, n, hits[i], th);
}

SIM_SCENARIO(multi) {
    opts(false);
    size_t th = 1 + sim::pick(6);
    std::vector<int> seen(16, 0);
    int calls = 0;
    std::mutex m;
    std::vector<int> effects;  // unsynchronised between threads: one slot per call
    effects.resize(64, 0);
    std::atomic<int> slot{0};
    auto body = [&](std::string const &s, std::vector<int> const &v, int x) {
        SIM_CHECK(s == "an argument that lives on the heap, certainly" && v.size() == 5 && v[4] == 44 && x == 9, "arguments",
                  "a thread received other arguments than the caller passed (string of %zu, vector of %zu, %d)", s.size(), v.size(), x);
        int k = slot.fetch_add(1);
        if (sim::pick(3) == 2) sim::yield();
        effects[k]++;
        std::lock_guard<std::mutex> l(m);
        calls++;
    };
    std::string s = "an argument that lives on the heap, certainly";
    std::vector<int> v{40, 41, 42, 43, 44};
    bool automatic = false;
    switch (sim::pick(5)) {
        case 0: multi_thread(th, body, s, v, 9); break;
        case 1: multi_thread(th, body, std::string(s), std::vector<int>(v), 9); break;
        case 2: multi_thread(th, body, std::move(s), v, 9); break;
        case 3: {
            struct J {
                decltype(body) *b;
                scn::Token t;
                void operator()(std::string const &s, std::vector<int> const &v, int x) {
                    SIM_CHECK(t.get() == 3, "moved-callable", "a thread received a callable that had been moved from");
                    (*b)(s, v, x);
                }
            };
            multi_thread(th, J{&body, scn::Token(3)}, s, std::move(v), 9);
            break;
        }
        default:
            automatic = true;
            th = std::max<size_t>(machine_thread_num, 1);  // an unknown number of processors (0) is one at least
            auto_multi_thread(body, std::string(s), v, 9);
    }
    SIM_CHECK(calls == (int)th, "call-count", "the job ran %d times on %zu%s threads", calls, th, automatic ? " (automatic)" : "");
    for (int i = 0; i < calls; ++i) SIM_CHECK(effects[i] == 1, "effects", "effects of call %d are not visible after the join", i);
}

SIM_SCENARIO(indexed) {
    opts(false);
    size_t th = 1 + sim::pick(6);
    int variant = sim::pick(4);
    if (variant == 3) th = std::max<size_t>(machine_thread_num, 1);
    std::vector<int> hits(th, 0);
    auto body = [&](size_t idx, std::vector<int> const &v, scn::Token const &t) {
        SIM_CHECK(idx < hits.size(), "bad-index", "index %zu of %zu threads", idx, hits.size());
        SIM_CHECK(v.size() == 3 && v[2] == 7 && t.get() == 11, "arguments", "a thread received other arguments than the caller passed");
        if (sim::pick(3) == 2) sim::yield();
        hits[idx]++;
    };
    std::vector<int> v{5, 6, 7};
    scn::Token t(11);
    switch (variant) {
        case 0: indexed_multi_thread(th, body, v, t); break;
        case 1: indexed_multi_thread(th, body, std::move(v), scn::Token(11)); break;
        case 2: indexed_multi_thread(th, [&, own = scn::Token(4)](size_t i, std::vector<int> const &v, scn::Token const &t) {
                SIM_CHECK(own.get() == 4, "moved-callable", "a thread received a callable that had been moved from");
                body(i, v, t);
            }, v, std::move(t));
            break;
        default: auto_indexed_multi_thread(body, std::vector<int>(v), scn::Token(11));
    }
    for (size_t i = 0; i < th; ++i) SIM_CHECK(hits[i] == 1, "call-count", "index %zu of %zu was executed %d times", i, th, hits[i]);
}

// Several callers at once, nested use.
SIM_SCENARIO(nested) {
    opts(false);
    size_t outer = 1 + sim::pick(3), n = sim::pick(9), inner = 1 + sim::pick(3);
    std::vector<std::vector<int>> hits(outer, std::vector<int>(n, 0));
    indexed_multi_thread(outer, [&](size_t k) {
        multi_threads_loop(n, inner, [&](size_t b, size_t e) {
            for (size_t i = b; i < e; ++i) hits[k][i]++;
        });
        for (size_t i = 0; i < n; ++i) SIM_CHECK(hits[k][i] == 1, "item-count", "item %zu of %zu executed %d times", i, n, hits[k][i]);
    });
    for (auto &h : hits)
        for (int x : h) SIM_CHECK(x == 1, "item-count", "an item was executed %d times", x);
}

// A thread that cannot be created.
SIM_SCENARIO(thread_fail) {
    opts(true);
    size_t th = 1 + sim::pick(6), n = sim::pick(13);
    int variant = sim::pick(3);
    std::vector<int> hits(64, 0);
    std::atomic<int> started{0};
    bool ok = guarded([&] {
        switch (variant) {
            case 0:
                multi_threads_loop(n, th, [&](size_t b, size_t e) {
                    Running r;
                    for (size_t i = b; i < e; ++i) {
                        hits[i]++;
                        sim::yield();
                    }
                });
                break;
            case 1:
                multi_thread(th, [&](int) {
                    Running r;
                    int k = started.fetch_add(1);
                    sim::yield();
                    hits[k]++;
                }, 1);
                break;
            default:
                indexed_multi_thread(th, [&](size_t i) {
                    Running r;
                    sim::yield();
                    hits[i]++;
                });
        }
    });
    SIM_CHECK(sim::ctr_get(0) == 0, "still-running", "%lld threads still run after the call ended", (long long)sim::ctr_get(0));
    size_t done = 0;
    for (size_t i = 0; i < (variant ? th : n); ++i) {
        SIM_CHECK(hits[i] <= 1, "item-count", "share %zu executed %d times", i, hits[i]);
        done += hits[i];
    }
    if (ok) SIM_CHECK(done == (variant ? th : n), "item-count", "only %zu of %zu shares executed and no exception", done, variant ? th : n);
    if (!ok) sim::probe("creation-failure");
}
