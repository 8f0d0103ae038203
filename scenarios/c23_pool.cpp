// C23: the object pool of the task nodes. Real code: src/taskflow/utility/object_pool.hpp.
#include <mutex>

#include "common.h"
#include "taskflow/taskflow.hpp"

namespace {
enum { LIVE = 40, BORN = 41, DIED = 42 };
thread_local bool boom = false;  // the next constructor throws
template <size_t PAD>
struct Obj {
    TF_ENABLE_POOLABLE_ON_THIS;
    uint32_t magic;
    int id;
    char pad[PAD];
    explicit Obj(int i) : magic(0x600d0b1), id(i) {
        if (boom) boom = false, magic = 0xbad, throw std::logic_error("constructor");
        pad[0] = pad[PAD - 1] = char(i);
        sim::ctr_add(BORN, 1);
    }
    ~Obj() {
        check(id, "destroyed");
        magic = 0xdead;
        sim::ctr_add(DIED, 1);
    }
    void check(int i, const char *when) const {
        SIM_CHECK(magic == 0x600d0b1 && id == i && pad[0] == char(i) && pad[PAD - 1] == char(i), "overlap", "an object of the pool lost its contents (%s)", when);
    }
};
// Small blocks (128 objects), so that blocks fill up, empty and move between heaps.
template <size_t PAD, size_t S>
void play(bool faults) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    o.alloc_fail = faults;
    sim::configure(o);
    using P = tf::ObjectPool<Obj<PAD>, S>;
    const size_t M = P(1).num_objects_per_block();
    unsigned threads = 1 + sim::pick(3), heaps = (unsigned)sim::pick(3);
    int rounds = 1 + (int)sim::pick(3);
    size_t before = sim::live_blocks();
    {
        P pool(heaps);
        std::vector<Obj<PAD> *> shared;  // handed from thread to thread
        std::mutex m;
        for (int i = LIVE; i <= DIED; ++i) sim::ctr_set(i, 0);
        // how many each thread makes and gives back: little, around one block, many blocks
        std::vector<std::vector<std::pair<int, int>>> plan(threads);
        for (auto &p : plan)
            for (int r = 0; r < rounds; ++r) {
                int n;
                switch (sim::pick(5)) {
                    case 0: n = 1 + (int)sim::pick(8); break;
                    case 1: n = (int)M - 2 + (int)sim::pick(5); break;
                    case 2: n = (int)M * 5 + (int)sim::pick(M); break;
                    default: n = (int)sim::pick(40);
                }
                int back = sim::pick(3) ? n - (int)sim::pick(n / 4 + 2) : (int)sim::pick(n + 1);
                p.emplace_back(n, back);
            }
        bool cross = sim::pick(2), fifo = sim::pick(2), throws = sim::pick(3) == 2;
        std::vector<std::vector<Obj<PAD> *>> own(threads);
        {
            scn::Threads t;
            for (unsigned th = 0; th < threads; ++th)
                t.go([&, th] {
                    auto &mine = own[th];
                    int serial = 0;
                    for (auto &p : plan[th]) {
                        for (int i = 0; i < p.first; ++i) {
                            int id = int(th) * 100000 + serial++;
                            Obj<PAD> *x = nullptr;
                            try {
                                boom = throws && id % 3 == 0;
                                if (faults) sim::alloc_faults(true);
                                x = pool.animate(id);
                                sim::alloc_faults(false);
                                SIM_CHECK(!throws || id % 3, "constructor", "the exception of a constructor did not reach the caller");
                            } catch (std::logic_error &) {
                                sim::alloc_faults(false);
                                sim::probe("constructor threw");
                                continue;
                            } catch (std::bad_alloc &) {
                                sim::alloc_faults(false);
                                boom = false;
                                SIM_CHECK(faults, "alloc", "an allocation failed that was not made to fail");
                                sim::probe("allocation failure reported");
                                continue;
                            }
                            SIM_CHECK(uintptr_t(x) % alignof(Obj<PAD>) == 0, "align", "an object is not aligned");
                            x->check(id, "new");
                            sim::ctr_add(LIVE, 1);
                            if (cross && i % 2) {
                                std::lock_guard<std::mutex> l(m);
                                shared.push_back(x);
                            } else
                                mine.push_back(x);
                        }
                        for (int i = 0; i < p.second; ++i) {
                            Obj<PAD> *x = nullptr;
                            if (cross && i % 2 == 0) {
                                std::lock_guard<std::mutex> l(m);
                                if (!shared.empty()) {
                                    size_t k = fifo ? 0 : shared.size() - 1;
                                    x = shared[k];
                                    shared[k] = shared.back();
                                    shared.pop_back();
                                }
                            }
                            if (!x) {
                                if (mine.empty()) continue;
                                size_t k = fifo ? 0 : mine.size() - 1;
                                x = mine[k];
                                mine[k] = mine.back();
                                mine.pop_back();
                            }
                            x->check(x->id, "before it is given back");
                            sim::ctr_add(LIVE, -1);
                            pool.recycle(x);
                        }
                    }
                });
        }
        for (auto *x : shared) own[0].push_back(x);
        size_t live = 0;
        for (auto &v : own) live += v.size();
        for (auto &v : own)
            for (auto *x : v) x->check(x->id, "at the end");
        SIM_CHECK((int64_t)live == sim::ctr_get(LIVE), "scenario", "the scenario lost count");
        SIM_CHECK(pool.num_allocated_objects() == live, "count", "the pool counts %zu objects, %zu are alive", pool.num_allocated_objects(), live);
        SIM_CHECK(pool.capacity() == pool.num_available_objects() + live, "count", "the pool has %zu places, %zu free and %zu taken", pool.capacity(), pool.num_available_objects(), live);
        // every place the pool counts as free can be had without more memory ... by the threads they belong to; all
        // that was given back is reused by a single-threaded program at least
        std::vector<Obj<PAD> *> again;
        for (int i = 0; i < 10; ++i) again.push_back(pool.animate(900000 + i));
        for (int i = 0; i < 10; ++i) again[i]->check(900000 + i, "made at the end");
        for (auto &v : own)
            for (auto *x : v) {
                x->check(x->id, "after more were made");
                pool.recycle(x);
            }
        for (auto *x : again) pool.recycle(x);
        SIM_CHECK(pool.num_allocated_objects() == 0, "count", "the pool counts %zu objects when all are given back", pool.num_allocated_objects());
        SIM_CHECK(sim::ctr_get(BORN) == sim::ctr_get(DIED), "count", "%lld objects were constructed and %lld destroyed", (long long)sim::ctr_get(BORN), (long long)sim::ctr_get(DIED));
    }
    SIM_CHECK(sim::live_blocks() <= before, "leak", "memory of a destroyed pool is not given back");
}
}  // namespace

SIM_SCENARIO(pool_threads) {
    if (sim::pick(3) == 2)
        play<40, 8192>(false);
    else
        play<2, 4096>(false);
}
SIM_SCENARIO(pool_no_memory) { play<2, 4096>(true); }

// Blocks move between heaps while objects of theirs are given back: nearly empty blocks wait in the global heap, threads
// of different heaps take them over at the moment other threads give back what is left in them.
SIM_SCENARIO(pool_migrate) {
    sim::Opt o;
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    using X = Obj<2>;
    using P = tf::ObjectPool<X, 4096>;
    P pool((unsigned)sim::pick(3));
    const size_t M = pool.num_objects_per_block();
    unsigned threads = 2 + (unsigned)sim::pick(2), rounds = 1 + (unsigned)sim::pick(3);
    for (int i = LIVE; i <= DIED; ++i) sim::ctr_set(i, 0);
    std::vector<X *> rest;
    for (unsigned r = 0; r < rounds; ++r) {
        sim::quiet(true);
        size_t blocks = 6 + sim::pick(3), keep = 1 + sim::pick(2);
        for (auto *x : rest) pool.recycle(x);
        rest.clear();
        std::vector<X *> v;
        for (size_t i = 0; i < blocks * M; ++i) v.push_back(pool.animate(int(i)));
        for (size_t i = 0; i < v.size(); ++i)
            if (i % M < keep)
                rest.push_back(v[i]);
            else
                pool.recycle(v[i]);
        sim::quiet(false);
        // what every thread does: give back (from either end), make
        std::vector<std::vector<X *>> own(threads);
        for (size_t i = rest.size(); i-- > 0;) own[sim::pick(threads)].push_back(rest[i]);
        rest.clear();
        std::vector<std::vector<int>> plan(threads);
        for (auto &p : plan)
            for (int i = 0, n = 1 + (int)sim::pick(10); i < n; ++i) p.push_back((int)sim::pick(3));
        {
            scn::Threads t;
            for (unsigned th = 0; th < threads; ++th)
                t.go([&, th] {
                    int serial = 0;
                    for (int a : plan[th]) {
                        if (a == 0 || own[th].empty()) {
                            int id = 1000000 + int(th) * 1000 + serial++;
                            auto *x = pool.animate(id);
                            x->check(id, "new");
                            own[th].insert(own[th].begin(), x);
                        } else {
                            auto *x = own[th].back();
                            own[th].pop_back();
                            x->check(x->id, "before it is given back");
                            pool.recycle(x);
                        }
                    }
                });
        }
        size_t live = 0;
        for (auto &w : own)
            for (auto *x : w) x->check(x->id, "at the end"), ++live, rest.push_back(x);
        SIM_CHECK(pool.num_allocated_objects() == live, "count", "the pool counts %zu objects, %zu are alive", pool.num_allocated_objects(), live);
        SIM_CHECK(pool.capacity() == pool.num_available_objects() + live, "count", "the pool has %zu places, %zu free and %zu taken", pool.capacity(), pool.num_available_objects(), live);
        // blocks were there to be used
        SIM_CHECK(pool.capacity() <= (blocks + threads + 2) * M * 2, "memory", "the pool has grown to %zu places", pool.capacity());
    }
    for (auto *x : rest) pool.recycle(x);
    SIM_CHECK(pool.num_allocated_objects() == 0, "count", "the pool counts %zu objects when all are given back", pool.num_allocated_objects());
    SIM_CHECK(sim::ctr_get(BORN) == sim::ctr_get(DIED), "count", "%lld objects were constructed and %lld destroyed", (long long)sim::ctr_get(BORN), (long long)sim::ctr_get(DIED));
}

// Objects made by one thread and given back by another again and again need no more and more memory.
SIM_SCENARIO(pool_bounded) {
    sim::Opt o;
    sim::configure(o);
    using X = Obj<2>;
    using P = tf::ObjectPool<X, 4096>;
    P pool((unsigned)sim::pick(2));
    const size_t M = pool.num_objects_per_block();
    int rounds = 3 + (int)sim::pick(6), n = 20 + (int)sim::pick(300);
    for (int i = LIVE; i <= DIED; ++i) sim::ctr_set(i, 0);
    std::vector<X *> box;
    std::mutex m;
    std::atomic<int> made{0}, back{0};
    scn::Threads t;
    t.go([&] {
        for (int r = 0; r < rounds; ++r) {
            std::vector<X *> v;
            for (int i = 0; i < n; ++i) v.push_back(pool.animate(i));
            {
                std::lock_guard<std::mutex> l(m);
                box.insert(box.end(), v.begin(), v.end());
            }
            made++;
            while (back <= r) sim::yield();
        }
    });
    t.go([&] {
        for (int r = 0; r < rounds; ++r) {
            while (made <= r) sim::yield();
            std::vector<X *> v;
            {
                std::lock_guard<std::mutex> l(m);
                v.swap(box);
            }
            for (auto *x : v) pool.recycle(x);
            back++;
        }
    });
    t.join();
    // live objects, one partly used and a few empty blocks per heap
    size_t limit = (size_t)n * 2 + M * 8 * 2;
    SIM_CHECK(pool.capacity() <= limit, "memory", "a pool that never held more than %d objects has grown to %zu places in %d rounds", n, pool.capacity(), rounds);
    SIM_CHECK(pool.num_allocated_objects() == 0, "count", "the pool counts %zu objects when all are given back", pool.num_allocated_objects());
}
