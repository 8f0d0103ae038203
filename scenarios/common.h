// Helpers shared by the scenarios. Instrumented code: part of the simulated program.
#pragma once
#include "sim.h"

#include <atomic>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

namespace scn {
// `true` with probability p/1000 as a workload choice (false is the simple choice).
inline bool chance(unsigned permille) { return sim::pick(1000) >= 1000 - permille; }
// Pick lo..hi, lo is the simple choice.
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + sim::pick(hi - lo + 1); }
// A few scheduling points: work that takes a while.
inline void work(unsigned n) {
    for (unsigned i = 0; i < n; ++i) sim::yield();
}
// Thread set of the scenario itself; joins on destruction.
struct Threads {
    std::vector<std::thread> t;
    template <typename F>
    void go(F &&f) {
        t.emplace_back(std::forward<F>(f));
    }
    void join() {
        for (auto &x : t)
            if (x.joinable()) x.join();
        t.clear();
    }
    ~Threads() { join(); }
};
// A payload with identity: notices use after destruction, torn copies and use after move.
struct Token {
    static constexpr uint64_t ALIVE = 0x5afe5afe5afe5afeull, DEAD = 0xdeaddeaddeaddeadull;
    uint64_t magic{ALIVE};
    int64_t id{-1};
    std::unique_ptr<int64_t> heap;
    Token() = default;
    explicit Token(int64_t i) : id(i), heap(new int64_t(i)) {}
    Token(Token const &o) : id(o.id), heap(o.heap ? new int64_t(*o.heap) : nullptr) { o.check(); }
    Token(Token &&o) noexcept : id(o.id), heap(std::move(o.heap)) {
        o.check_alive();
        o.id = -2;
    }
    Token &operator=(Token const &o) {
        o.check_alive();
        check_alive();
        id = o.id;
        heap.reset(o.heap ? new int64_t(*o.heap) : nullptr);
        return *this;
    }
    Token &operator=(Token &&o) noexcept {
        o.check_alive();
        check_alive();
        id = o.id;
        heap = std::move(o.heap);
        o.id = -2;
        return *this;
    }
    ~Token() {
        check_alive();
        magic = DEAD;
    }
    void check_alive() const { SIM_CHECK(magic == ALIVE, "dead-token", "a value was used before construction or after destruction"); }
    void check() const {
        check_alive();
        if (id >= 0) SIM_CHECK(heap && *heap == id, "torn-token", "value %lld lost its contents", (long long)id);
    }
    int64_t get() const {
        check();
        return id;
    }
};
}  // namespace scn
