// C16: parallel algorithms. Real code: src/taskflow/core/algorithm (for_each, reduce, sort) on the real executor.
#include <algorithm>
#include <list>
#include <numeric>
#include <string>

#include "tflow.h"

namespace {
enum { DEFAULT, GUIDED, DYNAMIC, STATIC };
const char *const PART[] = {"default", "guided", "dynamic", "static"};

// 0..40, small ones often, multiples of the worker count and of chunks as well
int some_size() {
    switch (sim::pick(4)) {
        case 0: return (int)sim::pick(5);
        case 1: return (int)sim::pick(13);
        case 2:
            if (sim::pick(12) == 11) return 240 + (int)sim::pick(300);  // more than fit a byte
            return (int)sim::pick(41);
        default: return (int)sim::pick(41);
    }
}

// visits of one loop; plain: each element is visited by one task, and the successor sees them all
struct Visits {
    std::vector<int> n;
    void check(const char *what, int part, size_t chunk, int runs) {
        for (size_t i = 0; i < n.size(); ++i)
            SIM_CHECK(n[i] == runs, "visits", "%s (%s, chunk %zu): element %zu of %zu was visited %d times in %d runs", what, PART[part], chunk, i, n.size(), n[i], runs);
    }
};

template <typename B, typename E, typename C>
tf::Task loop(tf::FlowBuilder &f, int part, size_t chunk, B &&b, E &&e, C &&c) {
    switch (part) {
        case GUIDED: return f.for_each_guided(std::forward<B>(b), std::forward<E>(e), std::forward<C>(c), chunk);
        case DYNAMIC: return f.for_each_dynamic(std::forward<B>(b), std::forward<E>(e), std::forward<C>(c), chunk);
        case STATIC: return f.for_each_static(std::forward<B>(b), std::forward<E>(e), std::forward<C>(c), chunk);
        default: return f.for_each(std::forward<B>(b), std::forward<E>(e), std::forward<C>(c));
    }
}
template <typename B, typename E, typename S, typename C>
tf::Task index_loop(tf::FlowBuilder &f, int part, size_t chunk, B &&b, E &&e, S &&s, C &&c) {
    switch (part) {
        case GUIDED: return f.for_each_index_guided(std::forward<B>(b), std::forward<E>(e), std::forward<S>(s), std::forward<C>(c), chunk);
        case DYNAMIC: return f.for_each_index_dynamic(std::forward<B>(b), std::forward<E>(e), std::forward<S>(s), std::forward<C>(c), chunk);
        case STATIC: return f.for_each_index_static(std::forward<B>(b), std::forward<E>(e), std::forward<S>(s), std::forward<C>(c), chunk);
        default: return f.for_each_index(std::forward<B>(b), std::forward<E>(e), std::forward<S>(s), std::forward<C>(c));
    }
}
template <typename It, typename T, typename O>
tf::Task red(tf::FlowBuilder &f, int part, size_t chunk, It b, It e, T &init, O o) {
    switch (part) {
        case GUIDED: return f.reduce_guided(b, e, init, o, chunk);
        case DYNAMIC: return f.reduce_dynamic(b, e, init, o, chunk);
        case STATIC: return f.reduce_static(b, e, init, o, chunk);
        default: return f.reduce(b, e, init, o);
    }
}
template <typename It, typename T, typename O, typename U>
tf::Task tred(tf::FlowBuilder &f, int part, size_t chunk, It b, It e, T &init, O o, U u) {
    switch (part) {
        case GUIDED: return f.transform_reduce_guided(b, e, init, o, u, chunk);
        case DYNAMIC: return f.transform_reduce_dynamic(b, e, init, o, u, chunk);
        case STATIC: return f.transform_reduce_static(b, e, init, o, u, chunk);
        default: return f.transform_reduce(b, e, init, o, u);
    }
}

// How often each element (and the initial value) is contained: two bits each, so that doubled and lost ones show.
struct Bag {
    uint64_t w[3] = {0, 0, 0};
    scn::Token t;  // notices values used unconstructed
    Bag() = default;
    explicit Bag(int i) { w[i / 21] = uint64_t(1) << 3 * (i % 21); }
    int of(int i) const { return int(w[i / 21] >> 3 * (i % 21) & 7); }
};
Bag operator+(Bag const &a, Bag const &b) {
    a.t.check_alive();
    b.t.check_alive();
    Bag r;
    for (int i = 0; i < 3; ++i) r.w[i] = a.w[i] + b.w[i];
    return r;
}
const int INIT = 62;

// one algorithm task with a task before and one after it
void around(tf::Taskflow &t, tf::Task a, std::function<void()> before, std::function<void()> after) {
    auto b = t.emplace(std::move(before)), c = t.emplace(std::move(after));
    b.precede(a);
    a.precede(c);
}
struct Common {
    size_t workers, chunk;
    int part, n, runs;
    bool late, nested;
    Common() {
        sim::Opt o;
        o.weak = sim::pick(4) == 3;
        sim::configure(o);
        workers = 1 + sim::pick(4);
        part = (int)sim::pick(4);
        chunk = part == DEFAULT ? 1 : sim::pick(7);
        if (part != DEFAULT && sim::pick(8) == 7) chunk = 30 + sim::pick(20);
        n = some_size();
        late = sim::pick(2);
        runs = 1 + (int)sim::pick(2);
    }
};
}  // namespace

// Loops over iterators, bound at once or by the task before, random access or not.
SIM_SCENARIO(loop_iterators) {
    Common k;
    bool list = sim::pick(3) == 2;
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    std::vector<int> v;
    std::list<int> l;
    Visits seen;
    int total = 0, grew = 0, stall = (int)sim::pick(3);
    auto fill = [&] {
        if (grew++ && k.late && sim::pick(2)) return;
        v.resize(k.n);
        l.resize(k.n);
        std::iota(v.begin(), v.end(), 0);
        std::iota(l.begin(), l.end(), 0);
        seen.n.assign(k.n, 0);
        total = 0;
    };
    auto visit = [&](int &i) {
        SIM_CHECK(i >= 0 && i < k.n, "visits", "an element outside the range was visited");
        if (stall == 2 && i % 5 == 0) sim::yield();
        seen.n[i]++;
    };
    std::vector<int>::iterator vb, ve;
    std::list<int>::iterator lb, le;
    fill();
    tf::Task a;
    int expect = 0;
    if (list)
        a = k.late ? loop(t, k.part, k.chunk, std::ref(lb), std::ref(le), visit) : loop(t, k.part, k.chunk, l.begin(), l.end(), visit);
    else
        a = k.late ? loop(t, k.part, k.chunk, std::ref(vb), std::ref(ve), visit) : loop(t, k.part, k.chunk, v.begin(), v.end(), visit);
    around(
        t, a,
        [&] {
            if (k.late) {
                fill();
                expect = 0;
                vb = v.begin(), ve = v.end(), lb = l.begin(), le = l.end();
                for (auto &x : seen.n) x = 0;
            }
            expect++;
        },
        [&] {
            seen.check(list ? "loop over a list" : "loop over a vector", k.part, k.chunk, expect);
            total++;
        });
    ex.run_n(t, k.runs).wait();
    SIM_CHECK(total >= 1, "run-count", "the task after the loop has not run");
}

namespace {
template <typename T>
void indices(Common &k) {
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    Visits seen;
    int step = 1 + (int)sim::pick(4);
    bool down = std::is_signed<T>::value && sim::pick(2);
    int cut = (int)sim::pick(step);  // the range need not be a multiple of the step
    T b = T(down ? 100 - (int)sim::pick(200) : (int)sim::pick(50));
    if (std::is_signed<T>::value && !down) b = T(b - 25);
    T s = T(down ? -step : step);
    T e = T(b + T(k.n) * s);
    if (k.n) e = T(down ? e + cut : e - cut);
    seen.n.assign(k.n, 0);
    int after = 0, expect = 0;
    auto visit = [&](T i) {
        long d = long(i) - long(b);
        SIM_CHECK(d % step == 0, "visits", "an index between the steps was visited");
        long j = d / long(s);
        SIM_CHECK(j >= 0 && j < k.n, "visits", "an index outside the range was visited");
        seen.n[j]++;
    };
    if (k.n == 0 && sim::pick(2)) s = 0;  // an empty range may have any step
    T lb{}, le{}, ls{1};
    auto a = k.late ? index_loop(t, k.part, k.chunk, std::ref(lb), std::ref(le), std::ref(ls), visit) : index_loop(t, k.part, k.chunk, b, e, s, visit);
    around(
        t, a,
        [&] {
            lb = b, le = e, ls = s;
            expect++;
        },
        [&] {
            seen.check("index loop", k.part, k.chunk, expect);
            after++;
        });
    ex.run_n(t, k.runs).wait();
    SIM_CHECK(after == k.runs, "run-count", "the task after the loop ran %d times in %d runs", after, k.runs);
}
}  // namespace

SIM_SCENARIO(loop_indices) {
    Common k;
    switch (sim::pick(4)) {
        case 0: return indices<int>(k);
        case 1: return indices<size_t>(k);
        case 2: return indices<int64_t>(k);
        default: return indices<short>(k);
    }
}

SIM_SCENARIO(reductions) {
    Common k;
    if (k.n >= INIT) k.n = INIT - 1;  // as many elements as a Bag has room for
    bool transform = sim::pick(2);
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    std::vector<Bag> v(k.n);
    std::vector<int> src(k.n), calls(k.n);
    for (int i = 0; i < k.n; ++i) {
        if (!transform) v[i] = Bag(i);
        src[i] = i;
    }
    int after = 0;
    Bag r;
    auto plus = [](Bag const &a, Bag const &b) { return a + b; };
    auto a = transform ? tred(t, k.part, k.chunk, src.begin(), src.end(), r, plus,
                              [&](int i) {
                                  calls[i]++;
                                  return Bag(i);
                              })
                       : red(t, k.part, k.chunk, v.begin(), v.end(), r, plus);
    around(
        t, a, [&] { r = Bag(INIT); },
        [&] {
            after++;
            SIM_CHECK(r.of(INIT) == 1, "reduction", "the initial value is contained %d times in the result (%s, chunk %zu, size %d)", r.of(INIT), PART[k.part], k.chunk, k.n);
            for (int i = 0; i < INIT; ++i)
                SIM_CHECK(r.of(i) == (i < k.n), "reduction", "element %d of %d is contained %d times in the result (%s, chunk %zu%s)", i, k.n, r.of(i), PART[k.part], k.chunk,
                          transform ? ", transformed" : "");
            if (transform)
                for (int i = 0; i < k.n; ++i) SIM_CHECK(calls[i] == after, "reduction", "element %d was transformed %d times in %d runs", i, calls[i], after);
        });
    ex.run_n(t, k.runs).wait();
    SIM_CHECK(after == k.runs, "run-count", "the task after the reduction ran %d times in %d runs", after, k.runs);
}

// Values of the usual kinds through the same algorithms: sums, smallest, largest, strings.
SIM_SCENARIO(reduce_values) {
    Common k;
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    std::vector<int> v(k.n);
    int sum = 0, lo = 0, hi = 0, init = (int)sim::pick(7) - 3;
    for (auto &x : v) x = (int)sim::pick(21) - 10;
    sum = std::accumulate(v.begin(), v.end(), init);
    lo = hi = init;
    for (int x : v) lo = std::min(lo, x), hi = std::max(hi, x);
    int rs = init, rl = init, rh = init;
    std::string text;
    int after = 0;
    auto a = red(t, k.part, k.chunk, v.begin(), v.end(), rs, [](int a, int b) { return a + b; });
    auto b = red(t, k.part, k.chunk, v.begin(), v.end(), rl, [](int a, int b) { return a < b ? a : b; });
    auto c = tred(t, k.part, k.chunk, v.begin(), v.end(), rh, [](int a, int b) { return a > b ? a : b; }, [](int x) { return x; });
    auto d = tred(t, k.part, k.chunk, v.begin(), v.end(), text, [](std::string const &a, std::string const &b) { return a + b; },
                  [](int x) { return std::string(1, char('k' + x)); });
    auto e = t.emplace([&] { after++; });
    e.succeed(a, b, c, d);
    ex.run(t).wait();
    std::sort(text.begin(), text.end());
    std::string want;
    for (int x : v) want += char('k' + x);
    std::sort(want.begin(), want.end());
    SIM_CHECK(after == 1 && rs == sum && rl == lo && rh == hi && text == want, "reduction", "sum %d smallest %d largest %d of %d values, expected %d %d %d (%s, chunk %zu, text %d)", rs, rl, rh,
              k.n, sum, lo, hi, PART[k.part], k.chunk, text == want);
}

namespace {
// Large enough to be sorted in parallel from 129 elements on.
struct Big {
    int key{0}, id{-1};
    char fill[504];
    Big() = default;
    Big(Big const &o) : key(o.key), id(o.id) {}
    Big &operator=(Big const &o) {
        key = o.key;
        id = o.id;
        return *this;
    }
};
static_assert(sizeof(Big) >= 512, "");
// A comparator with state of its own, which must be alive whenever it is used.
struct Cmp {
    scn::Token t;
    bool down{false};
    explicit Cmp(bool d) : t(7), down(d) {}
    bool operator()(Big const &a, Big const &b) const {
        t.check();
        return down ? b.key < a.key : a.key < b.key;
    }
};
std::vector<int> keys(int n) {
    std::vector<int> k(n);
    int kind = (int)sim::pick(8), range = 1 + (int)sim::pick(n + 2);
    uint64_t r = sim::pick(1u << 30);
    for (int i = 0; i < n; ++i) {
        r = r * 6364136223846793005ull + 1442695040888963407ull;
        int x = int((r >> 33) % uint64_t(range));
        switch (kind) {
            case 1: k[i] = i; break;
            case 2: k[i] = n - i; break;
            case 3: k[i] = 5; break;
            case 4: k[i] = i < n / 2 ? i : n - i; break;
            case 5: k[i] = i % 7 == 0 ? x : i; break;
            case 6: k[i] = i % 16; break;
            case 7: k[i] = i == n - 1 ? -1 : i; break;
            default: k[i] = x;
        }
    }
    return k;
}
}  // namespace

SIM_SCENARIO(sort_objects) {
    Common k;
    int n = sim::pick(4) == 0 ? k.n : 120 + (int)sim::pick(sim::pick(3) == 2 ? 700 : 250);
    auto key = keys(n);
    bool down = sim::pick(2);
    std::vector<Big> v(n);
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    int after = 0;
    std::vector<Big>::iterator b, e;
    auto a = k.late ? t.sort(std::ref(b), std::ref(e), Cmp(down)) : t.sort(v.begin(), v.end(), Cmp(down));
    around(
        t, a,
        [&] {
            for (int i = 0; i < n; ++i) v[i].key = key[i], v[i].id = i;
            b = v.begin(), e = v.end();
        },
        [&] {
            after++;
            std::vector<int> seen(n);
            for (int i = 0; i < n; ++i) {
                SIM_CHECK(v[i].id >= 0 && v[i].id < n && seen[v[i].id]++ == 0 && v[i].key == key[v[i].id], "sort", "the sorted range of %d holds an element that is not one of its own, or twice", n);
                if (i) SIM_CHECK(down ? v[i - 1].key >= v[i].key : v[i - 1].key <= v[i].key, "sort", "elements %d and %d of %d are out of order", i - 1, i, n);
            }
        });
    ex.run_n(t, k.runs).wait();
    SIM_CHECK(after == k.runs, "run-count", "the task after the sort ran %d times in %d runs", after, k.runs);
}

SIM_SCENARIO(sort_strings) {
    Common k;
    int n = sim::pick(4) == 0 ? k.n : 120 + (int)sim::pick(300);
    auto key = keys(n);
    std::vector<std::string> v(n), want;
    for (int i = 0; i < n; ++i) v[i] = (key[i] % 3 ? "a string that does not fit inside " : "") + std::to_string(key[i]);
    want = v;
    std::sort(want.begin(), want.end());
    tf::Executor ex(k.workers);
    tf::Taskflow t;
    t.sort(v.begin(), v.end());
    ex.run(t).wait();
    SIM_CHECK(v == want, "sort", "%d strings were not sorted", n);
}
