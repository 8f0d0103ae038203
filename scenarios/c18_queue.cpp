// C18: the work-stealing queue by itself. Real code: src/taskflow/core/tsq.hpp.
#include <mutex>

#include "common.h"
#include "taskflow/taskflow.hpp"

namespace {
struct Item {
    int id;
    int64_t load;   // plain: whoever gets the item must see it
    int taken = 0;  // plain: two takers conflict
    explicit Item(int i) : id(i), load(i * 1000003LL + 7) {}
};
struct World {
    std::vector<std::unique_ptr<Item>> items;  // filled before the threads start
    tf::TaskQueue<Item *> q;
    explicit World(int64_t cap) : q(cap) {}
    static void got(Item *x, const char *who) {
        SIM_CHECK(x->load == x->id * 1000003LL + 7, "torn-item", "%s got item %d before it was complete", who, x->id);
        SIM_CHECK(x->taken == 0, "twice", "%s got item %d, which was taken before", who, x->id);
        x->taken++;
    }
    void thief(int tries) {
        int last = -1;
        for (int i = 0; i < tries; ++i) {
            Item *x = q.steal();
            if (!x) {
                sim::yield();
                continue;
            }
            got(x, "a thief");
            SIM_CHECK(x->id > last, "order", "a thief got item %d after item %d: not the oldest", x->id, last);
            last = x->id;
        }
    }
    // everything pushed is taken by now or still there
    void drain(int pushed, bool by_steal) {
        int left = 0, last = by_steal ? -1 : 1 << 30;
        for (int i = 0; i < pushed; ++i) left += items[i]->taken == 0;
        for (; left > 0; --left) {
            SIM_CHECK(q.size() == (size_t)left && !q.empty(), "size", "%d items are left, the queue counts %zu%s", left, q.size(), q.empty() ? " and is empty" : "");
            Item *x = by_steal ? q.steal() : q.pop();
            SIM_CHECK(x, "lost", "%d of %d pushed items are lost", left, pushed);
            got(x, by_steal ? "the last thief" : "the owner at the end");
            SIM_CHECK(by_steal ? x->id > last : x->id < last, "order", "item %d came after item %d at the end", x->id, last);
            last = x->id;
        }
        SIM_CHECK(q.size() == 0 && q.empty(), "size", "the queue counts %zu items when all are taken", q.size());
        SIM_CHECK(!(by_steal ? q.pop() : q.steal()), "twice", "an empty queue delivered an item");
        for (int i = 0; i < pushed; ++i) SIM_CHECK(items[i]->taken == 1, "lost", "item %d was taken %d times", i, items[i]->taken);
    }
};
// One owner pushing and popping, others stealing.
void owner_and_thieves(bool weak) {
    sim::Opt o;
    o.weak = weak;
    o.stalls = sim::pick(2);
    sim::configure(o);
    int64_t cap = int64_t(1) << sim::pick(5);
    int n = 2 + (int)sim::pick(24);
    unsigned thieves = 1 + sim::pick(3), bursts = 1 + sim::pick(6);
    World w(cap);
    for (int i = 0; i < n; ++i) w.items.emplace_back(new Item(i));
    std::vector<std::pair<int, int>> plan;  // pushes, then pops
    for (unsigned i = 0; i < bursts; ++i) {
        int push = 1 + (int)sim::pick(sim::pick(3) == 2 ? 10 : 4);
        plan.emplace_back(push, (int)sim::pick(push + 2));
    }
    std::vector<int> tries, late;
    for (unsigned i = 0; i < thieves; ++i) tries.push_back(1 + (int)sim::pick(12)), late.push_back((int)sim::pick(6));
    bool by_steal = sim::pick(2), prefill = sim::pick(2);
    int next = 0;
    std::vector<Item *> stack;
    auto push = [&] {
        Item *x = w.items[next++].get();
        x->load = x->id * 1000003LL + 7;
        stack.push_back(x);
        w.q.push(x);
    };
    if (prefill)
        for (int i = 0; i < (int)cap && next < n; ++i) push();
    {
        scn::Threads t;
        for (unsigned i = 0; i < thieves; ++i)
            t.go([&, i] {
                scn::work(late[i]);
                w.thief(tries[i]);
            });
        for (auto &p : plan) {
            for (int i = 0; i < p.first && next < n; ++i) push();
            for (int i = 0; i < p.second; ++i) {
                Item *x = w.q.pop();
                if (x) {
                    SIM_CHECK(!stack.empty() && x == stack.back(), "order", "the owner popped item %d, its most recent one is %d", x->id, stack.empty() ? -1 : stack.back()->id);
                    World::got(x, "the owner");
                    stack.pop_back();
                } else
                    stack.clear();  // all were stolen: judged at the end
            }
        }
        t.join();
    }
    w.drain(next, by_steal);
}
}  // namespace

SIM_SCENARIO(steal_strong) { owner_and_thieves(false); }
SIM_SCENARIO(steal_weak) { owner_and_thieves(true); }

// The last item: pop and steals compete for it again and again.
SIM_SCENARIO(steal_last) {
    sim::Opt o;
    o.weak = sim::pick(2);
    sim::configure(o);
    int rounds = 2 + (int)sim::pick(8), per = 1 + (int)sim::pick(2);
    unsigned thieves = 1 + sim::pick(2);
    World w(int64_t(1) << sim::pick(3));
    for (int i = 0; i < rounds * per; ++i) w.items.emplace_back(new Item(i));
    scn::Threads t;
    for (unsigned i = 0; i < thieves; ++i) t.go([&] { w.thief(rounds * 2); });
    int next = 0;
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < per; ++i) w.q.push(w.items[next++].get());
        for (int i = 0; i < per; ++i)
            if (Item *x = w.q.pop()) World::got(x, "the owner");
    }
    t.join();
    w.drain(next, false);
}

// As the executor's shared queue is used: several threads push one after the other under a lock, all steal.
SIM_SCENARIO(steal_shared) {
    sim::Opt o;
    o.weak = sim::pick(2);
    sim::configure(o);
    unsigned pushers = 1 + sim::pick(3), thieves = 1 + sim::pick(2);
    int each = 1 + (int)sim::pick(6), tries = 1 + (int)sim::pick(12);
    World w(int64_t(1) << sim::pick(4));
    for (unsigned i = 0; i < pushers * each; ++i) w.items.emplace_back(new Item((int)i));
    std::mutex m;
    int next = 0;
    scn::Threads t;
    for (unsigned i = 0; i < thieves; ++i) t.go([&] { w.thief(tries); });
    for (unsigned i = 0; i < pushers; ++i)
        t.go([&] {
            for (int k = 0; k < each; ++k) {
                std::lock_guard<std::mutex> l(m);
                w.q.push(w.items[next++].get());
            }
        });
    t.join();
    w.drain(next, sim::pick(2));
}
