// C07: a file shared between threads. Real code: ConcurrentFile of src/multi-thread/multi-thread.hpp, libstdc++
// streams (instantiated here, so that races and switches inside them are seen), simulated threads and disk.
#include "common.h"

#include <fstream>
#include <iostream>
#include <mutex>
#include <tuple>

#include "multi-thread/multi-thread.hpp"

using namespace hub::multi_thread;
namespace {
const char *F = "/sim/f";
struct Rec {
    long id{-1};
    std::string text;
    Rec() = default;
    explicit Rec(long i) : id(i), text("r" + std::to_string(i) + (i % 3 ? "" : std::string(90, 'x'))) {}
    bool ok() const { return id >= 0 && text == Rec(id).text; }
};
std::ostream &operator<<(std::ostream &o, Rec const &r) { return o << r.id << ' ' << r.text << ' ' << r.id << '\n'; }
std::istream &operator>>(std::istream &i, Rec &r) {
    long again = -1;
    i >> r.id >> r.text >> again;
    if (i) SIM_CHECK(again == r.id && r.ok(), "torn", "a reader received a torn record (%ld, %ld)", r.id, again);
    return i;
}
std::string line(long i) { return std::to_string(i) + " " + Rec(i).text + " " + std::to_string(i) + "\n"; }
std::vector<long> parse(std::string const &s, bool torn_tail_ok) {
    std::vector<long> v;
    for (size_t p = 0; p < s.size();) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) {
            SIM_CHECK(torn_tail_ok, "torn", "the file ends inside a record");
            break;
        }
        long id = atol(s.c_str() + p);
        SIM_CHECK(s.compare(p, e + 1 - p, line(id)) == 0, "torn", "records are interleaved in the file: '%s'", s.substr(p, std::min<size_t>(e - p, 70)).c_str());
        v.push_back(id);
        p = e + 1;
    }
    return v;
}
int g_writers, g_per;
void check(std::vector<long> const &v, bool complete) {
    std::vector<int> next(g_writers, 0);
    for (long id : v) {
        int w = id / 100, i = id % 100;
        SIM_CHECK(id >= 0 && w < g_writers && i < g_per, "phantom", "record %ld was never written", id);
        SIM_CHECK(next[w] == i, "order", "record %d of thread %d in the file where its record %d belongs", i, w, next[w]);
        next[w]++;
    }
    if (complete)
        for (int w = 0; w < g_writers; ++w) SIM_CHECK(next[w] == g_per, "lost", "thread %d wrote %d records, the file has %d", w, g_per, next[w]);
}
// One record, through every way of writing one.
void write_one(ConcurrentFile &f, long id) {
    switch (sim::pick(4)) {
        case 0: f << Rec(id); break;
        case 1: {
            Rec r(id);
            f << std::make_tuple(r.id, r.text, std::to_string(r.id) + "\n");
            break;
        }
        case 2: {
            int busy = f.execute([&](std::fstream &s, long i) {
                SIM_CHECK(sim::ctr_add(0, 1) == 1, "not-exclusive", "two callbacks have the file at once");
                Rec r(i);
                s << r.id << ' ';
                sim::yield();
                s << r.text << ' ' << r.id << '\n';
                SIM_CHECK(sim::ctr_add(0, -1) == 0, "not-exclusive", "two callbacks have the file at once");
                return 17;
            }, id);
            SIM_CHECK(busy == 17, "execute-result", "execute() returned %d instead of the callback's result", busy);
            break;
        }
        default: {
            ConcurrentFile g(f);
            g << line(id);
        }
    }
}
}  // namespace

SIM_SCENARIO(file_write) {
    sim::Opt o;
    o.io_short = true;
    sim::configure(o);
    g_writers = 1 + sim::pick(3), g_per = sim::pick(6);
    {
        ConcurrentFile f = make_thread_safe_fstream(F, std::ios_base::out);
        scn::Threads th;
        for (int w = 0; w < g_writers; ++w) {
            auto body = [w](ConcurrentFile &f) {
                for (int i = 0; i < g_per; ++i) {
                    write_one(f, w * 100 + i);
                    if (sim::pick(4) == 3) f.flush();
                }
            };
            if (sim::pick(2)) th.go([&f, body] { body(f); });
            else th.go([g = ConcurrentFile(f), body]() mutable { body(g); });
        }
        th.join();
    }
    check(parse(sim::fs_get(F), false), true);
}
SIM_SCENARIO(file_read) {
    sim::Opt o;
    o.io_short = true;
    sim::configure(o);
    int n = sim::pick(12), readers = 1 + sim::pick(3);
    std::string s;
    for (int i = 0; i < n; ++i) s += line(i);
    sim::fs_put(F, s);
    std::vector<std::vector<long>> got(readers);
    {
        ConcurrentFile f(F, std::ios_base::in);
        scn::Threads th;
        for (int r = 0; r < readers; ++r)
            th.go([&, r, g = ConcurrentFile(f)]() mutable {
                Rec x;
                while (g >> x) {
                    SIM_CHECK(x.ok(), "torn", "a reader received a torn record");
                    got[r].push_back(x.id);
                }
                Rec y(12345);
                SIM_CHECK(!(g >> y), "phantom", "a read past the end reports success");
                SIM_CHECK(g.eof(), "eof", "eof() is false after a read past the end");
            });
        th.join();
    }
    std::vector<int> cnt(n, 0);
    for (auto &g : got) {
        long last = -1;
        for (long id : g) {
            SIM_CHECK(id >= 0 && id < n && ++cnt[id] == 1, "duplicate", "record %ld delivered twice or not in the file", id);
            SIM_CHECK(id > last, "order", "record %ld delivered after %ld", id, last);
            last = id;
        }
    }
    for (int i = 0; i < n; ++i) SIM_CHECK(cnt[i] == 1, "lost", "record %d of %d was not delivered", i, n);
}
SIM_SCENARIO(file_read_fault) {
    sim::Opt o;
    o.io_once = sim::pick(3) == 2;  // the failure passes
    o.io_short = o.io_err = !o.io_once;
    sim::configure(o);
    int n = sim::pick(140), readers = 1 + sim::pick(2);
    std::string s;
    for (int i = 0; i < n; ++i) s += line(i);
    sim::fs_put(F, s);
    std::vector<int> cnt(n + 1, 0);
    std::mutex m;
    ConcurrentFile f(std::string(F), std::ios_base::in);
    scn::Threads th;
    for (int r = 0; r < readers; ++r)
        th.go([&] {
            Rec x;
            int k = 0;
            while (f >> x) {
                std::lock_guard<std::mutex> l(m);
                SIM_CHECK(x.ok() && x.id < n && ++cnt[x.id] == 1, "phantom", "record %ld delivered twice or not in the file", x.id);
                SIM_CHECK(++k <= n, "phantom", "more records than the file holds");
            }
            for (uint64_t again = sim::pick(8); again; --again) SIM_CHECK(!(f >> x), "phantom", "a read after the end or an I/O error delivers a record");
        });
    th.join();
    int end = 0;
    while (end < n && cnt[end]) ++end;
    for (int i = end; i < n; ++i) SIM_CHECK(!cnt[i], "order", "record %d delivered, record %d not", i, end);
    if (!sim::fs_failed()) SIM_CHECK(end == n, "lost", "%d of %d records delivered and no I/O error", end, n);
    if (sim::fs_failed()) sim::probe("io-failed");
}
// Crash at any point: a prefix of whole records (the last may be cut), nothing flushed is lost.
namespace {
void after_crash() {
    std::string s = sim::fs_get(F);
    auto v = parse(s, true);
    check(v, false);
    int64_t flushed[3];
    for (int w = 0; w < 3; ++w) flushed[w] = sim::ctr_get(10 + w);
    for (long id : v)
        if (id % 100 + 1 >= 0) flushed[id / 100]--;
    for (int w = 0; w < g_writers; ++w)
        SIM_CHECK(flushed[w] <= 0, "lost-flushed", "%lld records of thread %d were flushed and are not in the file after the crash", (long long)flushed[w], w);
}
}  // namespace
SIM_SCENARIO(file_crash) {
    sim::Opt o;
    o.io_short = true;
    o.crash = true;
    sim::configure(o);
    sim::on_crash(after_crash);
    g_writers = 1 + sim::pick(3), g_per = sim::pick(6);
    {
        ConcurrentFile f(F, std::ios_base::out | std::ios_base::trunc);
        scn::Threads th;
        for (int w = 0; w < g_writers; ++w)
            th.go([&, w] {
                for (int i = 0; i < g_per; ++i) {
                    write_one(f, w * 100 + i);
                    if (sim::pick(2)) {
                        f.flush();
                        sim::ctr_set(10 + w, i + 1);
                    }
                }
            });
        th.join();
        f.flush();
        for (int w = 0; w < g_writers; ++w) sim::ctr_set(10 + w, g_per);
        after_crash();
    }
    check(parse(sim::fs_get(F), false), true);
}
// Failing disk: only whole records in each thread's order, possibly cut at the end.
SIM_SCENARIO(file_write_fault) {
    sim::Opt o;
    o.io_once = sim::pick(3) == 2;  // the failure passes
    o.io_short = o.io_err = !o.io_once;
    sim::configure(o);
    g_writers = 1 + sim::pick(3), g_per = sim::pick(3) == 2 ? sim::pick(90) : sim::pick(12);
    {
        ConcurrentFile f(F, std::ios_base::out);
        scn::Threads th;
        for (int w = 0; w < g_writers; ++w)
            th.go([&, w] {
                for (int i = 0; i < g_per; ++i) {
                    write_one(f, w * 100 + i);
                    if (sim::pick(4) == 3) f.flush();
                }
            });
        th.join();
    }
    auto v = parse(sim::fs_get(F), sim::fs_failed());
    check(v, !sim::fs_failed());
}
