// C11: asynchronous record streams. Real code: src/multi-thread/ciostream.hpp and libstdc++ streams, on
// simulated threads and the simulated disk.
#include "common.h"

#include <condition_variable>
#include <fstream>
#include <mutex>
#include <queue>
#include <string>

#include "multi-thread/ciostream.hpp"

using namespace hub::multi_thread;
namespace {
// One record per line; the text of the record carries its number twice so that a torn one is noticed.
struct Rec {
    long id{-1};
    std::string text;
    Rec() = default;
    explicit Rec(long i) : id(i), text("record-" + std::to_string(i) + (i % 3 ? "" : std::string(300, 'x'))) {}
    bool ok() const { return id >= 0 && text == Rec(id).text; }
};
std::ostream &operator<<(std::ostream &o, Rec const &r) { return o << r.id << ' ' << r.text << '\n'; }
std::istream &operator>>(std::istream &i, Rec &r) { return i >> r.id >> r.text; }
std::string line(long i) { return std::to_string(i) + " " + Rec(i).text + "\n"; }

// the records of a text, all of which must be whole
std::vector<long> parse(std::string const &s, bool torn_tail_ok) {
    std::vector<long> v;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) {
            SIM_CHECK(torn_tail_ok, "torn", "the file ends inside a record: '%s'", s.substr(p, 60).c_str());
            break;
        }
        long id = atol(s.c_str() + p);
        SIM_CHECK(s.compare(p, e + 1 - p, line(id)) == 0, "torn", "the file holds a broken record '%s'", s.substr(p, std::min<size_t>(e - p, 60)).c_str());
        v.push_back(id);
        p = e + 1;
    }
    return v;
}
void check_order(std::vector<long> const &v, int producers, int per, bool complete) {
    std::vector<int> next(producers, 0);
    for (long id : v) {
        int p = id / 1000, i = id % 1000;
        SIM_CHECK(p < producers && i < per, "phantom", "record %ld was never inserted", id);
        SIM_CHECK(next[p] == i, "order", "record %d of producer %d in the file where %d belongs", i, p, next[p]);
        next[p]++;
    }
    for (int p = 0; p < producers; ++p)
        if (complete) SIM_CHECK(next[p] == per, "lost", "producer %d inserted %d records, the file has %d", p, per, next[p]);
}
template <typename Out>
void produce(Out &out, int producers, int per) {
    if (producers == 1) {
        for (int i = 0; i < per; ++i) {
            if (sim::pick(2)) {
                Rec r(i);
                out << r;
                SIM_CHECK(r.ok(), "moved-from", "inserting a record emptied the caller's copy");
            } else
                out << Rec(i);
            if (sim::pick(4) == 3) sim::yield();
        }
        return;
    }
    scn::Threads th;
    for (int p = 0; p < producers; ++p)
        th.go([&, p] {
            for (int i = 0; i < per; ++i) out << Rec(p * 1000 + i);
        });
    th.join();
}
// every record of `want` read through `in`, then the end
template <typename In>
void consume(In &in, std::vector<long> const &want, bool faults, size_t stop_after) {
    size_t n = 0;
    Rec r;
    while (n < stop_after && (in >> r)) {
        SIM_CHECK(n < want.size(), "phantom", "record %zu delivered from a file of %zu records (id %ld)", n + 1, want.size(), r.id);
        SIM_CHECK(r.ok() && r.id == want[n], "order", "record number %zu of the file is %ld, delivered %ld", n, want[n], r.id);
        ++n;
        r = Rec();
        if (sim::pick(4) == 3) sim::yield();
    }
    if (n < stop_after) {
        if (!faults) SIM_CHECK(n == want.size(), "lost", "the stream ended after %zu of %zu records", n, want.size());
        for (int k = 0; k < 2; ++k) SIM_CHECK(!(in >> r), "phantom", "a record was delivered after the end of the stream");
    }
}
}  // namespace

SIM_SCENARIO(out_stream) {
    sim::Opt o;
    o.io_short = true;
    sim::configure(o);
    int producers = 1 + sim::pick(3), per = sim::pick(8);
    {
        Costream<Rec> out("/sim/out");
        if (sim::pick(4) == 3) {
            Costream<Rec> moved(std::move(out));
            produce(moved, producers, per);
            if (sim::pick(2)) out = std::move(moved);
        } else
            produce(out, producers, per);
    }
    check_order(parse(sim::fs_get("/sim/out"), false), producers, per, true);
}
SIM_SCENARIO(out_pipe) {
    sim::Opt o;
    o.io_short = true;
    sim::configure(o);
    int producers = 1 + sim::pick(3), per = sim::pick(40);
    {
        Opip<Rec> out("/sim/out");
        produce(out, producers, per);
    }
    check_order(parse(sim::fs_get("/sim/out"), false), producers, per, true);
}
// Reassigning a stream ends the old one.
SIM_SCENARIO(out_reassign) {
    sim::Opt o;
    sim::configure(o);
    int a = sim::pick(5), b = sim::pick(5);
    {
        std::string na = "/sim/a", nb = "/sim/b";
        Costream<Rec> out(na);
        produce(out, 1, a);
        Costream<Rec> other(nb);
        out = std::move(other);
        check_order(parse(sim::fs_get("/sim/a"), false), 1, a, true);
        produce(out, 1, b);
    }
    check_order(parse(sim::fs_get("/sim/b"), false), 1, b, true);
}
// Failing disk: what is in the file is a prefix, and everything terminates.
SIM_SCENARIO(out_fault) {
    sim::Opt o;
    o.io_once = sim::pick(3) == 2;  // the failure passes
    o.io_short = o.io_err = !o.io_once;
    o.open_err = true;
    o.thread_fail = true;
    sim::configure(o);
    int per = sim::pick(4) == 3 ? sim::pick(900) : sim::pick(60);
    bool created = true;
    try {
        Opip<Rec> out("/sim/out");
        produce(out, 1, per);
    } catch (std::system_error const &) {
        created = false;
    }
    std::string want;
    if (created)
        for (int i = 0; i < per; ++i) want += line(i);
    std::string s = sim::fs_get("/sim/out");
    SIM_CHECK(s.size() <= want.size() && want.compare(0, s.size(), s) == 0, "torn", "the file is not a prefix of what was inserted");
    if (created && !sim::fs_failed() && sim::fs_exists("/sim/out")) SIM_CHECK(s == want, "lost", "%zu of %zu bytes written and no I/O error", s.size(), want.size());
    if (sim::fs_failed()) sim::probe("io-failed");
}
SIM_SCENARIO(in_stream) {
    sim::Opt o;
    o.io_short = true;
    sim::configure(o);
    size_t n = sim::pick(3) ? sim::pick(6) : sim::pick(230);
    std::string s;
    std::vector<long> want;
    for (size_t i = 0; i < n; ++i) want.push_back(i), s += line(i);
    bool no_newline = n && sim::pick(4) == 3;
    if (no_newline) s.pop_back();
    if (n || sim::pick(2)) sim::fs_put("/sim/in", s);
    size_t stop = sim::pick(4) == 3 ? sim::pick(n + 1) : n + 10;
    if (sim::pick(2)) {
        Ipip<Rec> in("/sim/in");
        consume(in, want, false, stop);
    } else {
        Cistream<Rec> in("/sim/in");
        consume(in, want, false, stop);
    }
}
SIM_SCENARIO(in_fault) {
    sim::Opt o;
    o.io_once = sim::pick(3) == 2;  // the failure passes
    o.io_short = o.io_err = !o.io_once;
    o.open_err = true;
    sim::configure(o);
    size_t n = sim::pick(230);
    std::string s;
    std::vector<long> want;
    for (size_t i = 0; i < n; ++i) want.push_back(i), s += line(i);
    int garbage = sim::pick(5);
    if (garbage == 4) s += "not-a-number tail\n";
    sim::fs_put("/sim/in", s);
    {
        Ipip<Rec> in("/sim/in");
        consume(in, want, true, sim::pick(4) == 3 ? sim::pick(n + 1) : n + 10);
    }
    if (sim::fs_failed()) sim::probe("io-failed");
}
// Several consumers share one stream.
SIM_SCENARIO(in_shared) {
    sim::Opt o;
    sim::configure(o);
    size_t n = sim::pick(3) ? sim::pick(12) : 90 + sim::pick(30);
    int consumers = 1 + sim::pick(3);
    // Each consumer may put its first records to use, and not come back for more before all the others have theirs.
    size_t meet = sim::pick(3) == 2 ? n / consumers < 4 ? n / consumers : 1 + sim::pick(4) : 0;
    std::string s;
    for (size_t i = 0; i < n; ++i) s += line(i);
    sim::fs_put("/sim/in", s);
    std::vector<std::vector<long>> got(consumers);
    {
        Cistream<Rec> in("/sim/in");
        scn::Threads th;
        std::mutex m;
        std::condition_variable cv;
        int met = 0;
        for (int c = 0; c < consumers; ++c)
            th.go([&, c] {
                Cistream<Rec> mine(in);
                Rec r;
                while (mine >> r) {
                    SIM_CHECK(r.ok(), "torn", "a broken record was delivered");
                    got[c].push_back(r.id);
                    if (got[c].size() == meet) {
                        std::unique_lock<std::mutex> l(m);
                        if (++met == consumers) cv.notify_all();
                        cv.wait(l, [&] { return met == consumers; });
                    }
                }
            });
        th.join();
    }
    std::vector<int> cnt(n, 0);
    for (auto &g : got) {
        long last = -1;
        for (long id : g) {
            SIM_CHECK(id >= 0 && id < (long)n && ++cnt[id] == 1, "duplicate", "record %ld delivered twice or never written", id);
            SIM_CHECK(id > last, "order", "record %ld delivered after %ld", id, last);
            last = id;
        }
    }
    for (size_t i = 0; i < n; ++i) SIM_CHECK(cnt[i] == 1, "lost", "record %zu of %zu was not delivered", i, n);
}
