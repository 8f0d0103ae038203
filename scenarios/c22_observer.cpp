// C22: executor observers. Real code: src/taskflow/core (observers, executor, task graphs).
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>

#include "tflow.h"

namespace {
// just enough of JSON to read the profiles back
struct Json {
    char type{0};  // n b s a o
    double num{0};
    std::string str;
    std::vector<Json> items;
    std::vector<std::string> keys;
    Json const &at(const char *k) const {
        for (size_t i = 0; i < keys.size(); ++i)
            if (keys[i] == k) return items[i];
        sim::fail("profile", "a profile lacks the entry %s", k);
    }
};
struct Parser {
    std::string const &s;
    size_t i{0};
    [[noreturn]] void bad() { sim::fail("profile", "a profile is not valid JSON at character %zu: %.60s", i, s.substr(i < 20 ? 0 : i - 20, 60).c_str()); }
    void ws() {
        while (i < s.size() && strchr(" \n\t\r", s[i])) ++i;
    }
    bool eat(char c) {
        ws();
        if (i < s.size() && s[i] == c) return ++i, true;
        return false;
    }
    Json value() {
        Json j;
        ws();
        if (i >= s.size()) bad();
        if (eat('{')) {
            j.type = 'o';
            if (eat('}')) return j;
            do {
                ws();
                Json k = value();
                if (k.type != 's' || !eat(':')) bad();
                j.keys.push_back(k.str);
                j.items.push_back(value());
            } while (eat(','));
            if (!eat('}')) bad();
        } else if (eat('[')) {
            j.type = 'a';
            if (eat(']')) return j;
            do j.items.push_back(value());
            while (eat(','));
            if (!eat(']')) bad();
        } else if (eat('"')) {
            j.type = 's';
            while (i < s.size() && s[i] != '"') j.str += s[i++];
            if (!eat('"')) bad();
        } else {
            char *e;
            j.type = 'n';
            j.num = strtod(s.c_str() + i, &e);
            if (e == s.c_str() + i) bad();
            i = e - s.c_str();
        }
        return j;
    }
    Json all() {
        Json j = value();
        ws();
        if (i != s.size()) bad();
        return j;
    }
};
Json parse(std::string const &s) { return Parser{s}.all(); }

thread_local int me = -1;  // worker number, told by the observer

struct Watch : tf::ObserverInterface {
    struct Open {
        size_t task;
        tf::TaskType type;
        int state;  // 0 announced, 1 body running, 2 body done
        tfl::Unit *unit;
    };
    struct PerWorker {
        std::vector<Open> open;  // plain: only its worker may touch it while tasks run
        int entries{0}, exits{0}, bodies{0};
    };
    std::vector<PerWorker> w;
    int setups{0};
    bool joined{true};  // what tasks spawn is complete when they end
    void set_up(size_t n) override {
        setups++;
        w.resize(n);
    }
    void on_entry(tf::WorkerView v, tf::TaskView t) override {
        SIM_CHECK(setups == 1 && v.id() < w.size(), "worker", "worker %zu of %zu is announced", v.id(), w.size());
        me = (int)v.id();
        auto &x = w[v.id()];
        x.open.push_back({t.hash_value(), t.type(), 0, nullptr});
        x.entries++;
    }
    void on_exit(tf::WorkerView v, tf::TaskView t) override {
        auto &x = w[v.id()];
        SIM_CHECK(!x.open.empty(), "pairing", "an end is announced on a worker on which no task began");
        auto o = x.open.back();
        SIM_CHECK(o.task == t.hash_value() && o.type == t.type(), "pairing", "the end of another task is announced than the one that began last on the worker");
        bool body = o.type != tf::TaskType::MODULE;
        SIM_CHECK(!body || o.state == 2, "pairing", o.state ? "the end of a task is announced before the task ended" : "a task is announced and ended without having run");
        if (o.unit && joined) SIM_CHECK(tfl::Flow::complete(*o.unit), "pairing", "the end of a task is announced before the tasks it spawned and joins ended");
        x.open.pop_back();
        x.exits++;
    }
    // called inside tasks
    void body(int what, tfl::Unit *unit = nullptr) {
        SIM_CHECK(me >= 0, "pairing", "a task runs that was not announced");
        auto &x = w[me];
        SIM_CHECK(!x.open.empty(), "pairing", "a task runs on a worker on which none was announced");
        auto &o = x.open.back();
        SIM_CHECK(o.state == (what == 1 ? 1 : 0), "pairing", what == 1 ? "a task ends that is not the one announced last" : "a task begins that was not announced");
        o.state = what == 0 ? 1 : 2;
        if (what != 2) o.unit = unit;
        if (what != 1) x.bodies++;
    }
    void settled(int want, const char *when) {
        int en = 0, ex = 0;
        for (auto &x : w) {
            en += x.entries;
            ex += x.exits;
            SIM_CHECK(x.open.empty(), "pairing", "%s a task has begun for an observer and not ended", when);
        }
        SIM_CHECK(en == want && ex == want, "count", "%s %d begins and %d ends were announced for %d executions", when, en, ex, want);
    }
};
// executions so far of a graph and all in it
int executions(tfl::Flow const &f) {
    int n = 0;
    for (auto &x : f.u) {
        if (x->type == tfl::EMPTY) continue;
        if (x->type != tfl::MOD) n += x->n;
        n += x->async_done;
        if (x->sub) n += executions(*x->sub);
    }
    return n;
}
int modules(tfl::Flow const &f) {
    int n = 0;
    for (auto &x : f.u) {
        if (x->type == tfl::MOD) n += x->count();
        if (x->sub) n += modules(*x->sub);
    }
    return n;
}
struct Span {
    double b, e;
};
void check_level(std::vector<Span> &v, const char *what) {
    for (size_t i = 0; i < v.size(); ++i) {
        SIM_CHECK(v[i].b >= 0 && v[i].e >= v[i].b, "profile", "%s: a span from %g to %g", what, v[i].b, v[i].e);
        if (i) SIM_CHECK(v[i].b >= v[i - 1].e, "profile", "%s: spans of one worker overlap on the same level", what);
    }
}
void check_tfprof(tf::TFProfObserver &p, int want, size_t workers, const char *when) {
    SIM_CHECK(p.num_tasks() == (size_t)want, "profile", "%s the profiler counts %zu tasks, %d were executed", when, p.num_tasks(), want);
    Json j = parse(p.dump());
    SIM_CHECK(j.type == 'o', "profile", "the profile is no object");
    int n = 0;
    if (j.items.empty()) {
        SIM_CHECK(want == 0, "profile", "%s the profile is empty, %d tasks were executed", when, want);
        return;
    }
    std::map<int, std::map<int, std::vector<Span>>> all;
    for (auto &l : j.at("data").items) {
        int w = (int)l.at("worker").num, level = (int)l.at("level").num;
        SIM_CHECK(w >= 0 && w < (int)workers && !all[w].count(level), "profile", "%s worker %d level %d appears wrongly in the profile", when, w, level);
        auto &v = all[w][level];
        for (auto &s : l.at("data").items) {
            auto &sp = s.at("span").items;
            SIM_CHECK(sp.size() == 2, "profile", "a span has %zu ends", sp.size());
            v.push_back({sp[0].num, sp[1].num});
            s.at("name"), s.at("type");
            ++n;
        }
        check_level(v, "profiler");
    }
    for (auto &w : all)
        for (auto &l : w.second)
            if (l.first > 0)
                for (auto &s : l.second) {
                    bool in = false;
                    for (auto &o : w.second[l.first - 1]) in |= o.b <= s.b && s.e <= o.e;
                    SIM_CHECK(in, "profile", "a nested span of the profile lies outside of all spans one level up");
                }
    SIM_CHECK(n == want, "profile", "%s the profile holds %d spans, %d tasks were executed", when, n, want);
}
void check_chrome(tf::ChromeObserver &p, int want, size_t workers, const char *when) {
    SIM_CHECK(p.num_tasks() == (size_t)want, "profile", "%s the chrome observer counts %zu tasks, %d were executed", when, p.num_tasks(), want);
    Json j = parse(p.dump());
    SIM_CHECK(j.type == 'a' && (int)j.items.size() == want, "profile", "%s the chrome profile holds %zu events, %d tasks were executed", when, j.items.size(), want);
    for (auto &e : j.items) {
        SIM_CHECK(e.at("ts").num >= 0 && e.at("dur").num >= 0, "profile", "an event of the chrome profile starts at %g and takes %g", e.at("ts").num, e.at("dur").num);
        SIM_CHECK(e.at("tid").num >= 0 && e.at("tid").num < (double)workers, "profile", "an event of worker %g", e.at("tid").num);
    }
}
}  // namespace

SIM_SCENARIO(observed_graphs) {
    sim::Opt o;
    o.clock = sim::pick(2);
    o.weak = sim::pick(4) == 3;
    sim::configure(o);
    size_t workers = 1 + sim::pick(4);
    tfl::Gen g;
    g.branches = sim::pick(2);
    g.budget = 10;
    auto f = g.flow();
    f->build();
    bool cancel = sim::pick(4) == 3;
    if (cancel) f->set_cancellable();
    bool prof = sim::pick(2), chrome = sim::pick(2), two = sim::pick(3) == 2, clear = sim::pick(2), late = sim::pick(3) == 2;
    int runs = 1 + (int)sim::pick(2), rounds = cancel ? 1 : 1 + (int)sim::pick(2), wait = (int)sim::pick(30);
    int nasync = (int)sim::pick(4);
    int adone = 0;
    tf::Executor ex(workers);
    std::shared_ptr<Watch> w = ex.make_observer<Watch>(), w2;
    if (two) w2 = ex.make_observer<Watch>();
    std::shared_ptr<tf::TFProfObserver> p;
    std::shared_ptr<tf::ChromeObserver> c;
    if (prof) p = ex.make_observer<tf::TFProfObserver>();
    if (chrome && !late) c = ex.make_observer<tf::ChromeObserver>();
    SIM_CHECK(ex.num_observers() == 1u + two + prof + (chrome && !late), "count", "%zu observers are counted", ex.num_observers());
    w->joined = !cancel;
    if (two) w2->joined = !cancel;
    f->set_hook([&](tfl::Unit &u, int what) {
        w->body(what, &u);
        if (two) w2->body(what, &u);
        if (what == 2) {
            w->w[me].open.back().state = 2;
            if (two) w2->w[me].open.back().state = 2;
        }
    });
    auto count = [&] { return executions(*f) + adone; };
    int before = 0, cbefore = 0, mods = 0;
    for (int r = 0; r < rounds; ++r) {
        auto fu = ex.run_n(*f->tf, runs);
        std::mutex m;
        for (int i = 0; i < nasync; ++i)
            ex.silent_async([&] {
                w->body(0);
                if (two) w2->body(0);
                {
                    std::lock_guard<std::mutex> l(m);
                    adone++;
                }
                if (two) w2->body(1);
                w->body(1);
            });
        if (cancel) {
            scn::work(wait);
            fu.cancel();
        }
        fu.wait();
        ex.wait_for_all();
        int want;
        if (cancel) {  // graphs composed and not run are not counted by their tasks: take what the observer saw
            int en = 0, bodies = 0;
            for (auto &x : w->w) en += x.entries, bodies += x.bodies;
            SIM_CHECK(bodies == count() && en >= bodies, "count", "%d tasks of a cancelled run ran, %d were seen to begin", count(), bodies);
            want = en;
        } else {
            mods = modules(*f);
            want = count() + mods;
        }
        const char *when = "after a run";
        w->settled(want, when);
        if (two) w2->settled(want, when);
        if (prof) check_tfprof(*p, want - before, workers, when);
        if (c) check_chrome(*c, want - cbefore, workers, when);
        if (late && chrome && !c) {
            c = ex.make_observer<tf::ChromeObserver>();
            cbefore = want;
            check_chrome(*c, 0, workers, "before any task");
        }
        if (clear) {
            if (prof) p->clear(), check_tfprof(*p, 0, workers, "when cleared");
            if (c) c->clear(), check_chrome(*c, 0, workers, "when cleared");
            before = cbefore = want;
        }
    }
    if (two) {
        ex.remove_observer(w2);
        auto keep = w2;
        int n = 0;
        for (auto &x : keep->w) n += x.entries;
        two = false;
        f->reset();
        ex.run(*f->tf).wait();
        keep->settled(n, "after the observer was removed");
    }
}

// Names and types of the tasks in the profiles.
SIM_SCENARIO(observed_names) {
    sim::Opt o;
    o.clock = sim::pick(2);
    sim::configure(o);
    size_t workers = 1 + sim::pick(3);
    int n = 1 + (int)sim::pick(4);
    tf::Executor ex(workers);
    auto p = ex.make_observer<tf::TFProfObserver>();
    auto c = ex.make_observer<tf::ChromeObserver>();
    tf::Taskflow t, inner;
    inner.emplace([] {}).name("in");
    std::map<std::string, std::pair<int, std::string>> want;
    for (int i = 0; i < n; ++i) {
        std::string name = "t" + std::to_string(i);
        switch (sim::pick(4)) {
            case 0:
                t.emplace([] {}).name(name);
                want[name] = {1, "static"};
                break;
            case 1: {
                auto s = t.emplace([] {}).name(name + "s");
                auto x = t.emplace([] { return 7; }).name(name);
                s.precede(x);
                want[name + "s"] = {1, "static"};
                want[name] = {1, "condition"};
                break;
            }
            case 2:
                t.emplace([name](tf::Subflow &sf) {
                     sf.emplace([] {}).name(name + "a");
                     sf.emplace([] {}).name(name + "b");
                 }).name(name);
                want[name] = {1, "subflow"};
                want[name + "a"] = want[name + "b"] = {1, "static"};
                break;
            default:
                if (want.count("in")) break;
                t.composed_of(inner).name(name);
                want[name] = {1, "module"};
                want["in"] = {1, "static"};
        }
    }
    ex.run(t).wait();
    Json j = parse(p->dump());
    auto left = want;
    for (auto &l : j.at("data").items)
        for (auto &s : l.at("data").items) {
            auto it = left.find(s.at("name").str);
            SIM_CHECK(it != left.end() && it->second.first-- == 1, "profile", "a task called %s is in the profile, which is not one of those executed", s.at("name").str.c_str());
            SIM_CHECK(it->second.second == s.at("type").str, "profile", "task %s is a %s task in the profile, expected %s", it->first.c_str(), s.at("type").str.c_str(), it->second.second.c_str());
        }
    for (auto &x : left) SIM_CHECK(x.second.first == 0, "profile", "task %s is missing in the profile", x.first.c_str());
    left = want;
    Json k = parse(c->dump());
    for (auto &e : k.items) {
        auto it = left.find(e.at("name").str);
        SIM_CHECK(it != left.end() && it->second.first-- == 1, "profile", "a task called %s is in the chrome profile, which is not one of those executed", e.at("name").str.c_str());
    }
    for (auto &x : left) SIM_CHECK(x.second.first == 0, "profile", "task %s is missing in the chrome profile", x.first.c_str());
}

// Profiles collected on request of the environment: every executor of the process is observed, and the
// file is written when the process exits.
namespace {
struct Collected {  // constructed before the profile manager, destroyed after it
    bool live = false, binary = false;
    std::multiset<int> want;  // tasks executed, one entry per executor
    ~Collected() {
        if (!live) return;
        const char *path = binary ? "/sim/p.tfp" : "/sim/p.json";
        SIM_CHECK(sim::fs_exists(path), "profile", "no profile is written at exit");
        std::string s = sim::fs_get(path);
        std::multiset<int> got;
        std::set<size_t> uids;
        if (binary) {
            std::istringstream in(s);
            tf::Deserializer<std::istringstream> d(in);
            tf::ProfileData data;
            d(data);
            SIM_CHECK(in && in.peek() == EOF, "profile", "the profile written at exit has another size than its content");
            for (auto &t : data.timelines) {
                int n = 0;
                uids.insert(t.uid);
                for (auto &w : t.segments)
                    for (size_t l = 0; l < w.size(); ++l) {
                        std::vector<Span> v;
                        for (auto &x : w[l]) {
                            SIM_CHECK(x.name == "task" && x.type == tf::TaskType::STATIC, "profile", "a task is called %s", x.name.c_str());
                            v.push_back({(double)(x.beg - t.origin).count(), (double)(x.end - t.origin).count()});
                            ++n;
                        }
                        check_level(v, "profile written at exit");
                    }
                got.insert(n);
            }
        } else {
            Json j = parse(s);
            SIM_CHECK(j.type == 'a', "profile", "the profile written at exit is no list");
            size_t k = 0;
            for (auto &e : j.items) {
                int n = 0;
                if (e.items.empty()) {
                    uids.insert((size_t)-1 - k++);
                    got.insert(0);
                    continue;
                }
                uids.insert(strtoull(e.at("executor").str.c_str(), nullptr, 10));
                for (auto &l : e.at("data").items) {
                    std::vector<Span> v;
                    for (auto &x : l.at("data").items) {
                        SIM_CHECK(x.at("name").str == "task" && x.at("type").str == "static", "profile", "a task is called %s", x.at("name").str.c_str());
                        auto &sp = x.at("span").items;
                        v.push_back({sp[0].num, sp[1].num});
                        ++n;
                    }
                    check_level(v, "profile written at exit");
                }
                got.insert(n);
            }
        }
        SIM_CHECK(uids.size() == got.size(), "profile", "two executors share an identifier in the profile");
        if (got != want) {
            std::string a, b;
            for (int x : got) a += " " + std::to_string(x);
            for (int x : want) b += " " + std::to_string(x);
            sim::fail("profile", "the profile written at exit holds%s tasks of the executors, executed were%s", a.c_str(), b.c_str());
        }
    }
};
}  // namespace
SIM_SCENARIO(collected_profiles) {
    static Collected all;
    sim::Opt o;
    o.clock = sim::pick(2);
    o.io_short = sim::pick(2);
    sim::configure(o);
    all.live = true;
    all.binary = sim::pick(2);
    setenv("TF_ENABLE_PROFILER", all.binary ? "/sim/p.tfp" : "/sim/p.json", 1);
    int threads = 1 + (int)sim::pick(3);
    struct Plan {
        size_t workers;
        int tasks, rounds, asyncs;
    };
    std::vector<std::vector<Plan>> plan(threads);
    for (auto &p : plan)
        for (uint64_t n = 1 + sim::pick(2); n; --n) {
            p.push_back({1 + sim::pick(2), (int)sim::pick(4), 1 + (int)sim::pick(2), 0});
            all.want.insert(p.back().tasks * p.back().rounds);
        }
    scn::Threads t;
    for (int i = 0; i < threads; ++i)
        t.go([&, i] {
            for (auto &p : plan[i]) {
                tf::Executor ex(p.workers);
                tf::Taskflow f;
                for (int k = 0; k < p.tasks; ++k) f.emplace([] { scn::work(1); }).name("task");
                ex.run_n(f, p.rounds).wait();
            }
        });
    t.join();
}
