// C20: automatic names and configuration files. Real code: src/tools/auto-name.hpp, src/tools/config-reader.hpp.
#include <ctime>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "common.h"
#include "tools/auto-name.hpp"
#include "tools/config-reader.hpp"

namespace {
const char *PFX[] = {"space_", "a", "", "run_1"};
}
SIM_SCENARIO(auto_name) {
    sim::Opt o;
    o.clock = true;
    sim::configure(o);
    int threads = 1 + sim::pick(3), per = 1 + sim::pick(5);
    bool one = threads == 1;
    std::vector<std::vector<std::string>> got(threads);
    {
        scn::Threads th;
        for (int t = 0; t < threads; ++t) {
            auto body = [&, t] {
                for (int i = 0; i < per; ++i) {
                    const char *p = PFX[sim::pick(4)];
                    std::string n = hub::tools::auto_name(p);
                    SIM_CHECK(n.compare(0, strlen(p), p) == 0, "prefix", "name '%s' for the prefix '%s'", n.c_str(), p);
                    got[t].push_back(n);
                    switch (sim::pick(6)) {
                        case 3: sim::advance_ns(1000000000); break;
                        case 4: sim::jump_wall_ns(-1000000000); break;
                        case 5: sim::jump_wall_ns(sim::pick(2) ? -3600000000000ll : 1000000000); break;
                        default:;
                    }
                }
            };
            if (one) body();
            else th.go(body);
        }
        th.join();
    }
    std::set<std::string> all;
    for (auto &v : got)
        for (auto &n : v) SIM_CHECK(all.insert(n).second, "duplicate-name", "the name '%s' was given out twice", n.c_str());
}

namespace {
int g_state;  // 0: before reading, 1: object exists, 2: asking for a missing key
bool g_may_fail;
void ended() {
    // The program ended itself: right for an unreadable file or a missing key only.
    if (g_state == 2) return;
    SIM_CHECK(g_may_fail || sim::fs_failed(), "refused", "the program gave up on a readable configuration file");
}
}  // namespace
namespace {
// What is left of a file after a crash: every value is the one the file holds, or the reader is told there is none.
void torn_file(hub::tools::ConfigReader &conf, std::string const &text, char div, char com, std::vector<std::tuple<std::string, int, std::string>> const &want) {
    std::map<std::string, std::string> held;
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        std::string t;
        for (char ch : line)
            if (!isspace((unsigned char)ch)) t += ch;
        auto at = t.find(div);
        if (t.empty() || t[0] == com || at == std::string::npos) continue;
        held[t.substr(0, at)] = t.substr(at + 1);
    }
    for (auto &[key, kind, val] : want) {
        auto it = held.find(key);
        std::string h = it == held.end() ? "" : it->second;
        if (kind == 2) {
            if (it == held.end()) g_state = 2;
            auto v = conf.get<std::string>(key);
            SIM_CHECK(it != held.end() && v == h, "wrong-value", "the torn file holds '%s' for %s, '%s' was returned", h.c_str(), key.c_str(), v.c_str());
            continue;
        }
        char *end;
        double x = strtod(h.c_str(), &end);
        bool whole = end != h.c_str() && !*end;
        if (!whole) g_state = 2, sim::probe("value-torn-off");
        double v = kind == 0 ? conf.get<int>(key) : kind == 1 ? conf.get<double>(key) : conf.get<bool>(key);
        SIM_CHECK(end != h.c_str(), "not-reported", "the torn file holds no value for %s, %g was returned", key.c_str(), v);
        SIM_CHECK(v == x, "wrong-value", "the torn file holds '%s' for %s, %g was returned", h.c_str(), key.c_str(), v);
        g_state = 1;
    }
}
}  // namespace
SIM_SCENARIO(config) {
    sim::Opt o;
    int failing = sim::pick(4);
    o.io_err = failing == 2;
    o.io_once = failing == 3;  // the failure passes
    o.io_short = !o.io_once;
    o.open_err = failing >= 2;
    sim::configure(o);
    sim::expect_exit(ended);
    char div = sim::pick(4) == 3 ? ':' : '=', com = sim::pick(4) == 3 ? '!' : '#';
    int n = sim::pick(8);
    std::string text;
    std::vector<std::tuple<std::string, int, std::string>> want;  // key, kind, value
    bool torn = sim::pick(4) == 3;  // the program that wrote the file crashed before it was complete
    bool dup = !torn && n > 2 && sim::pick(3) == 2;
    int big = sim::pick(6) == 5 ? 500 : 0;
    for (int i = 0; i < n; ++i) {
        std::string key = "key_" + std::to_string(dup && i == n - 1 ? 0 : i), val;
        int kind = sim::pick(4);
        switch (kind) {
            case 0: val = std::to_string((int)sim::pick(100000) - 50000); break;
            case 1: val = std::to_string(sim::pick(100000)) + ".25e-3"; break;
            case 2: {
                std::string v = std::to_string(sim::pick(1000));
                static const char *const FORM[] = {"name-", "a/b.", "n"};
                val = sim::pick(8) == 7 ? "" : FORM[sim::pick(3)] + v;
                if (sim::pick(4) == 3) val += div + v;  // the divider once more
                break;
            }
            default: val = sim::pick(2) ? "1" : "0";
        }
        if (sim::pick(4) == 3) text += std::string(1, com) + " comment" + std::string(big * 10, 'c') + div + "7\n";
        if (sim::pick(4) == 3) text += "\n";
        std::string sp = sim::pick(2) ? "" : " \t";
        text += sp + key + sp + div + sp + val + sp + (i == n - 1 && sim::pick(2) ? "" : "\n");
        if (dup && i == n - 1) want.erase(want.begin());
        want.emplace_back(key, kind, val);
    }
    if (torn) text.resize(sim::pick(text.size() + 1));
    sim::fs_put("/sim/conf", text);
    g_may_fail = o.open_err;  // a failed open or read
    if (sim::pick(12) == 11) {
        sim::fs_remove("/sim/conf");
        g_may_fail = true;
    }
    bool exists = sim::fs_exists("/sim/conf");
    g_state = 0;
    hub::tools::ConfigReader conf("/sim/conf", div, com);
    g_state = 1;
    SIM_CHECK(exists, "not-reported", "a configuration file that does not exist was accepted");
    SIM_CHECK(!sim::fs_failed(), "not-reported", "reading the configuration file failed and nobody was told");
    if (torn) {
        torn_file(conf, text, div, com, want);
        return;
    }
    for (auto &[key, kind, val] : want) {
        bool ok = true;
        switch (kind) {
            case 0: ok = conf.get<int>(key) == atoi(val.c_str()); break;
            case 1: ok = conf.get<double>(key) == atof(val.c_str()); break;
            case 2: ok = conf.get<std::string>(key) == val; break;
            default: ok = conf.get<bool>(key) == (val == "1");
        }
        SIM_CHECK(ok, "wrong-value", "%s holds %s, something else was returned", key.c_str(), val.c_str());
    }
    for (auto &[key, kind, val] : want)
        if (kind == 2 && !sim::pick(6)) {
            g_state = 2;
            sim::probe("not-a-number");
            double v = sim::pick(2) ? conf.get<double>(key) : conf.get<int>(key);
            sim::fail("not-reported", "the value of %s, '%s', was read as the number %g", key.c_str(), val.c_str(), v);
        }
    if (sim::pick(2)) {
        g_state = 2;
        static const char *MISSING[] = {"key_77", "KEY_0", "", "key_", "comment"};
        auto v = conf.get<std::string>(MISSING[sim::pick(5)]);
        sim::fail("not-reported", "a missing key was answered with '%s'", v.c_str());
    }
}
