// C10: blocking concurrent deque. Real code: src/multi-thread/concurrent-queue.h.
#include "common.h"
#include <deque>
#include <set>

#include "multi-thread/concurrent-queue.h"

using hub::multi_thread::ConcurrentDeque;
namespace {
enum { PUSH_B = 1, PUSH_F, PUSHED, POP_F, POP_B, GOT, NONE };
}

// Producers at both ends, consumers at both ends, enough items for everybody's pops.
SIM_SCENARIO(queue_all) {
    sim::Opt o;
    sim::configure(o);
    auto q = std::make_unique<ConcurrentDeque<scn::Token>>();
    int producers = 1 + sim::pick(3), per = 1 + sim::pick(4), consumers = 1 + sim::pick(3);
    int mode = sim::pick(3);  // 0: back->front (FIFO), 1: front->back (FIFO), 2: mixed ends
    int total = producers * per;
    std::vector<std::vector<int64_t>> got(consumers);
    std::vector<int> quota(consumers, 0);
    for (int i = 0; i < total; ++i) quota[i % consumers]++;
    {
        scn::Threads th;
        for (int c = 0; c < consumers; ++c)
            th.go([&, c] {
                for (int i = 0; i < quota[c]; ++i) {
                    scn::Token t;
                    bool back = mode == 1 || (mode == 2 && sim::pick(2));
                    bool ok = back ? q->try_pop_back(t) : q->try_pop_front(t);
                    SIM_CHECK(ok, "not-delivered", "pop reports nothing although the queue was not stopped");
                    got[c].push_back(t.get());
                }
            });
        for (int p = 0; p < producers; ++p)
            th.go([&, p] {
                for (int i = 0; i < per; ++i) {
                    bool front = mode == 1 || (mode == 2 && sim::pick(2));
                    if (front) q->emplace_front(scn::Token(p * 100 + i));
                    else q->emplace_back(scn::Token(p * 100 + i));
                    if (sim::pick(5) == 4) q->empty();
                }
            });
        th.join();
    }
    SIM_CHECK(q->empty(), "not-empty", "every item was popped and the queue is not empty");
    std::vector<int> cnt(400, 0);
    for (int c = 0; c < consumers; ++c) {
        std::vector<int64_t> last(producers, -1);
        for (int64_t v : got[c]) {
            SIM_CHECK(v >= 0 && v < 400 && v % 100 < per && v / 100 < producers, "phantom", "item %lld was never inserted", (long long)v);
            SIM_CHECK(++cnt[v] == 1, "duplicate", "item %lld delivered twice", (long long)v);
            if (mode != 2) {
                SIM_CHECK(v % 100 > last[v / 100], "order", "consumer %d received item %lld after %lld", c, (long long)v, (long long)last[v / 100]);
                last[v / 100] = v % 100;
            }
        }
    }
    for (int p = 0; p < producers; ++p)
        for (int i = 0; i < per; ++i) SIM_CHECK(cnt[p * 100 + i] == 1, "lost", "item %d delivered %d times", p * 100 + i, cnt[p * 100 + i]);
}

// One thread at a time: the queue behaves as a double-ended sequence (empty(), both ends).
SIM_SCENARIO(queue_seq) {
    sim::Opt o;
    sim::configure(o);
    ConcurrentDeque<scn::Token> q;
    std::vector<int64_t> model;
    int n = sim::pick(30);
    for (int i = 0; i < n; ++i) {
        switch (sim::pick(4)) {
            case 0: q.emplace_back(i); model.push_back(i); break;
            case 1: q.emplace_front(i); model.insert(model.begin(), i); break;
            case 2:
                if (!model.empty()) {
                    scn::Token t;
                    SIM_CHECK(q.try_pop_front(t) && t.get() == model.front(), "order", "front should be %lld", (long long)model.front());
                    model.erase(model.begin());
                }
                break;
            default:
                if (!model.empty()) {
                    scn::Token t;
                    SIM_CHECK(q.try_pop_back(t) && t.get() == model.back(), "order", "back should be %lld", (long long)model.back());
                    model.pop_back();
                }
        }
        SIM_CHECK(q.empty() == model.empty(), "empty", "empty() is wrong with %zu items", model.size());
    }
    q.stop();
    scn::Token t;
    SIM_CHECK(!q.try_pop_front(t) && !q.try_pop_back(t), "after-stop", "a stopped queue delivered an item");
}

// Stop at any moment, with more consumers than items.
SIM_SCENARIO(queue_stop) {
    sim::Opt o;
    sim::configure(o);
    auto *q = new ConcurrentDeque<scn::Token>();
    int consumers = 1 + sim::pick(4), items = sim::pick(6), producers = 1 + sim::pick(2);
    std::atomic<int> delivered{0}, none{0};
    std::vector<int> cnt(300, 0);
    bool destroy = sim::pick(3) == 2;
    {
        scn::Threads th;
        for (int c = 0; c < consumers; ++c)
            th.go([&, q] {
                scn::Token t;
                while (true) {
                    bool ok = sim::pick(2) ? q->try_pop_back(t) : q->try_pop_front(t);
                    if (!ok) break;
                    int64_t v = t.get();
                    SIM_CHECK(v >= 0 && v < 300, "phantom", "item %lld was never inserted", (long long)v);
                    SIM_CHECK(sim::ctr_add(20 + v % 200, 1) == 1, "duplicate", "item %lld delivered twice", (long long)v);
                    delivered.fetch_add(1);
                    if (destroy) return;
                }
                none.fetch_add(1);
            });
        if (!destroy) {
            for (int p = 0; p < producers; ++p)
                th.go([&, q, p] {
                    for (int i = 0; i < items; ++i) q->emplace_back(p * 100 + i);
                });
            scn::work(sim::pick(10));
            q->stop();
            if (sim::pick(3) == 2) q->stop();
            th.join();
            SIM_CHECK(none.load() == consumers, "stranded", "%d of %d consumers reported the stop", none.load(), consumers);
            scn::Token t;
            SIM_CHECK(!q->try_pop_front(t), "after-stop", "a stopped queue delivered an item");
            delete q;
        } else {
            // every consumer waits in a pop; then the queue is destroyed
            for (int k = 0; k < 1000 && sim::blocked_threads() < consumers; ++k) sim::yield();
            if (sim::blocked_threads() < consumers) {
                q->stop();
                th.join();
                return;
            }
            sim::probe("destroy-while-waiting");
            delete q;
            th.join();
            SIM_CHECK(none.load() == consumers && delivered.load() == 0, "stranded", "%d of %d consumers woke up", none.load(), consumers);
        }
    }
}

// Any mix of operations: the recorded history is that of a double-ended sequence on which each operation acts at
// one moment between its call and its return (linearizability, decided by search over the recorded history).
namespace {
struct Act {
    int kind;        // 0 push back, 1 push front, 2 pop front, 3 pop back, 4 empty, 5 stop
    int64_t arg, res;  // res: item, -1 nothing delivered; empty: 0/1; push: 0 done, 1 refused for lack of memory
    uint64_t b, e;
};
struct Linear {
    std::vector<Act> const &h;
    std::set<std::pair<uint32_t, std::vector<int64_t>>> seen;
    std::deque<int64_t> q;
    bool stopped = false;
    uint32_t done = 0;
    bool go() {
        if (done == (1u << h.size()) - 1) return true;
        std::vector<int64_t> key(q.begin(), q.end());
        key.push_back(stopped ? -7 : -8);
        if (!seen.insert({done, key}).second) return false;
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1) && h[i].e < first_end) first_end = h[i].e;
        for (size_t i = 0; i < h.size(); ++i) {
            if (done >> i & 1 || h[i].b > first_end) continue;
            auto const &a = h[i];
            auto keep = q;
            bool kept = stopped, ok = true;
            switch (a.kind) {
                case 0:
                    if (!a.res) q.push_back(a.arg);
                    break;
                case 1:
                    if (!a.res) q.push_front(a.arg);
                    break;
                case 2:
                    if (stopped) ok = a.res == -1;
                    else if ((ok = !q.empty() && a.res == q.front())) q.pop_front();
                    break;
                case 3:
                    if (stopped) ok = a.res == -1;
                    else if ((ok = !q.empty() && a.res == q.back())) q.pop_back();
                    break;
                case 4:
                    ok = a.res == (int64_t)q.empty();
                    break;
                default:
                    stopped = true;
            }
            if (ok) {
                done |= 1u << i;
                if (go()) return true;
                done &= ~(1u << i);
            }
            q = keep;
            stopped = kept;
        }
        return false;
    }
};
}  // namespace
SIM_SCENARIO(queue_linear) {
    sim::Opt o;
    o.alloc_fail = sim::pick(3) == 2;
    sim::configure(o);
    ConcurrentDeque<scn::Token> q;
    int threads = 2 + sim::pick(3);
    std::vector<std::vector<Act>> plan(threads);
    int left = 18, id = 0;
    for (auto &p : plan)
        for (uint64_t n = 1 + sim::pick(6); n && left; --n, --left) p.push_back({(int)sim::pick(5), id++, 0, 0, 0});
    // filled beforehand, so that several storage blocks of the sequence are in use
    int fill = sim::pick(3) == 2 ? 60 + (int)sim::pick(10) : 0;
    int stop_after = (int)sim::pick(30);
    for (int i = 0; i < fill; ++i) q.emplace_back(1000 + i);
    Act stop{5, 0, 0, 0, 0};
    {
        scn::Threads th;
        for (auto &p : plan)
            th.go([&q, &p] {
                for (auto &a : p) {
                    scn::Token t;
                    if (a.kind < 2) t = scn::Token(a.arg);
                    a.b = sim::step();
                    switch (a.kind) {
                        case 0:
                        case 1:
                            try {
                                sim::AllocFaults f;
                                if (a.kind) q.emplace_front(std::move(t));
                                else q.emplace_back(std::move(t));
                            } catch (std::bad_alloc const &) {
                                sim::probe("push-no-memory");
                                a.res = 1;
                            }
                            break;
                        case 2: a.res = q.try_pop_front(t) ? t.get() : -1; break;
                        case 3: a.res = q.try_pop_back(t) ? t.get() : -1; break;
                        default: a.res = q.empty();
                    }
                    a.e = sim::step();
                }
            });
        scn::work(stop_after);
        stop.b = sim::step();
        q.stop();
        stop.e = sim::step();
        th.join();
    }
    std::vector<Act> h;
    for (auto &p : plan) h.insert(h.end(), p.begin(), p.end());
    h.push_back(stop);
    Linear l{h};
    for (int i = 0; i < fill; ++i) l.q.push_back(1000 + i);
    if (!l.go()) {
        std::string text;
        static const char *name[] = {"push back", "push front", "pop front", "pop back", "empty", "stop"};
        for (auto &a : h)
            text += std::string(name[a.kind]) + " arg " + std::to_string(a.arg) + " result " + std::to_string(a.res) + " [" + std::to_string(a.b) + "," + std::to_string(a.e) + "]; ";
        sim::fail("not-linearizable", "no order of the operations explains their results: %s", text.c_str());
    }
}
