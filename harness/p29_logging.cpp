// P29: the shared logger and the benchmark records.
#include "mc.h"

#include <sse/schemes/utils/logger.hpp>

#include <spdlog/async.h>
#include <spdlog/sinks/base_sink.h>

#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace {
std::string s(uint64_t x)
{
    return std::to_string(x);
}
// a logger of the application: keeps the messages it receives
struct Keep : spdlog::sinks::sink
{
    std::vector<std::string> got;
    void                     log(const spdlog::details::log_msg& m) override
    {
        mc::Unmanaged u;
        got.emplace_back(m.payload.begin(), m.payload.end());
    }
    void flush() override
    {
    }
    void set_pattern(const std::string&) override
    {
    }
    void set_formatter(std::unique_ptr<spdlog::formatter>) override
    {
    }
};
struct App
{
    std::shared_ptr<Keep>           keep = std::make_shared<Keep>();
    std::shared_ptr<spdlog::logger> log;
    std::vector<std::string>        want;
    spdlog::level::level_enum       level = spdlog::level::info;
    explicit App(const std::string& name) : log(std::make_shared<spdlog::logger>(name, keep))
    {
    }
};
std::string slurp(const std::string& p)
{
    std::ifstream     f(p);
    std::stringstream b;
    b << f.rdbuf();
    return b.str();
}
std::string cat(const std::vector<std::string>& v)
{
    std::string o = "[";
    for (auto& x : v)
        o += " " + x;
    return o + " ]";
}

#ifndef LOG_SCHED
std::chrono::system_clock::time_point g_now;
bool                                  g_virtual = false;
} // namespace
// the time is what the harness says
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    if (g_virtual)
        return g_now;
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec)));
}
} // namespace _V2
} // namespace chrono
} // namespace std
namespace {
void sequences(int depth)
{
    // stderr, where the default logger writes, goes to a file
    std::string err = mc::scratch() + "/stderr";
    int         old = dup(2), fd = open(err.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    App         a("a"), b("null_logger"), con("console");
    App*        cur = nullptr; // none: the default logger or silence
    bool        silent = false, own = false, named = false;
    auto        con_level = spdlog::level::info;
    std::vector<std::string> want;
    std::string              hist;
    dup2(fd, 2);
    std::string error;
    try {
        for (int d = 0; d < depth; d++) {
            int op = mc::choose(9, "operation");
            mc::transitions();
            hist += " " + s(op);
            switch (op) {
            case 0:
            case 1: {
                auto        level = op ? spdlog::level::debug : spdlog::level::warn;
                std::string m     = "m" + s(d);
                sse::logger::logger()->log(level, m);
                if (cur ? level >= cur->level : !silent && level >= con_level)
                    (cur ? cur->want : want).push_back(m);
                own |= !cur && !silent;
                break;
            }
            case 2:
                sse::logger::set_logger(a.log), cur = &a;
                break;
            case 3:
                sse::logger::set_logger(b.log), cur = &b;
                break;
            case 4:
                sse::logger::set_logger(nullptr), cur = nullptr, silent = true;
                break;
            case 5:
            case 6: {
                auto level = op == 5 ? spdlog::level::debug : spdlog::level::err;
                sse::logger::set_logging_level(level);
                if (cur)
                    cur->level = level;
                else if (!silent)
                    con_level = level, own = true;
                break;
            }
            case 7: {
                auto l = sse::logger::logger();
                MC_CHECK(l && (!cur || l == cur->log), "the logger is not the one which was set" + hist);
                own |= !cur && !silent;
                break;
            }
            default:
                // the application gives names to loggers of its own
                if (named)
                    mc::prune();
                named = true;
                if (mc::flip("console")) {
                    // its "console" is the default logger from now on, if there was none
                    if (own)
                        mc::prune();
                    spdlog::register_logger(con.log);
                    con_level = spdlog::level::info;
                } else {
                    spdlog::register_logger(b.log);
                }
            }
        }
    } catch (const std::exception& e) {
        error = e.what();
    }
    fflush(stderr);
    dup2(old, 2);
    close(old);
    close(fd);
    MC_CHECK(error.empty(), "an operation fails (" + error + "):" + hist);
    std::vector<std::string> got;
    std::istringstream       in(slurp(err));
    for (std::string l; std::getline(in, l);)
        got.push_back(l.substr(l.rfind(' ') + 1));
    // messages of the default logger are on stderr or, if the application has one of this name, there
    got.insert(got.end(), con.keep->got.begin(), con.keep->got.end());
    MC_CHECK(got == want, "the default logger wrote " + cat(got) + " instead of " + cat(want) + ":" + hist);
    MC_CHECK(a.keep->got == a.want && b.keep->got == b.want,
             "the application's loggers received " + cat(a.keep->got) + cat(b.keep->got) + " instead of " + cat(a.want) + cat(b.want) + ":" + hist);
    mc::validated(3);
    mc::state(hist);
}

struct Clock
{
    Clock()
    {
        g_virtual = true;
        g_now     = std::chrono::system_clock::time_point(std::chrono::seconds(1700000000));
    }
    ~Clock()
    {
        g_virtual = false;
    }
};

const std::vector<std::string>& messages()
{
    static const std::vector<std::string> m = {"search", "", "a {} b", "{0}", "a { b", "} a", "{{x}}", "50 %s"};
    return m;
}
struct Want
{
    std::string message;
    uint64_t    count;
    double      ms;
};
void benchmarks(int depth, bool all_messages)
{
    sse::logger::set_logger(nullptr);
    std::map<std::string, std::vector<Want>> want;
    std::string                              file, hist;
    {
        Clock c;
        for (int d = 0; d < depth; d++) {
            mc::transitions();
            int op = mc::choose(d || all_messages ? 8 : 7, "operation");
            hist += " " + s(op);
            if (op < 2) {
                file = mc::scratch() + "/bench" + s(op);
                if (!want.count(file))
                    unlink(file.c_str());
                want[file];
                sse::Benchmark::set_benchmark_file(file);
                continue;
            }
            static const uint64_t counts[] = {0, 1, 2, 1000000};
            uint64_t              count = 0, n = counts[mc::choose(4, "count")];
            std::string           m  = all_messages ? messages()[mc::choose(messages().size(), "message")] : "search";
            double                ms = 0;
            {
                sse::SearchBenchmark bench(m);
                auto                 tick = [&](int i) { g_now += std::chrono::microseconds(1500 * i); };
                tick(1);
                ms = 1.5;
                switch (op) {
                case 2: // runs to its end
                    break;
                case 3: // stopped before its end
                    bench.stop();
                    tick(4);
                    break;
                case 4:
                    bench.stop(n), count = n;
                    tick(4);
                    break;
                case 5:
                    bench.set_count(n), count = n;
                    tick(2);
                    ms = 4.5;
                    break;
                case 6:
                    bench.stop();
                    bench.set_count(n), count = n;
                    tick(4);
                    break;
                default: // others during this one
                {
                    sse::SearchBenchmark other("inner");
                    tick(2);
                    other.stop(7);
                    if (!file.empty())
                        want[file].push_back({"inner", 7, 3});
                }
                    ms = 4.5;
                }
            }
            if (!file.empty())
                want[file].push_back({m, count, ms});
        }
    }
    sse::Benchmark::set_benchmark_file(mc::scratch() + "/end"); // the last file is closed
    spdlog::shutdown();                                         // what is in the queue is written
    for (auto& w : want) {
        std::istringstream in(slurp(w.first));
        size_t             i = 0;
        for (std::string l; std::getline(in, l); i++) {
            MC_CHECK(i < w.second.size(), "there are more records than benchmarks: " + l + hist);
            auto&       e = w.second[i];
            size_t      p = l.find("] {");
            std::string head = "{ \"message\" : \"" + e.message + "\"";
            MC_CHECK(p != std::string::npos && l.compare(p + 2, head.size(), head) == 0, "a record has another message than " + e.message + ": " + l + hist);
            auto j = nlohmann::json::parse("{ \"x\" : 1" + l.substr(p + 2 + head.size()), nullptr, false);
            MC_CHECK(!j.is_discarded() && j.contains("items") && j.contains("time") && j.contains("time/item"), "a record is malformed: " + l + hist);
            double per = e.count > 1 ? e.ms / e.count : e.ms;
            MC_CHECK(j["items"].get<uint64_t>() == e.count, "a record counts other items than " + s(e.count) + ": " + l + hist);
            MC_CHECK(std::abs(j["time"].get<double>() - e.ms) < 1e-9, "a record has another time than " + std::to_string(e.ms) + ": " + l + hist);
            MC_CHECK(std::abs(j["time/item"].get<double>() - per) < 1e-9, "a record has another time per item than " + std::to_string(per) + ": " + l + hist);
            mc::validated();
        }
        MC_CHECK(i == w.second.size(), "of " + s(w.second.size()) + " benchmarks, " + s(i) + " are recorded:" + hist);
    }
    mc::state(hist);
}
#else
// one operation per thread
using Op = std::function<void()>;
void together(std::vector<std::function<void(App&, App&)>> ops, bool first_use)
{
    App *a = new App("a"), *b = new App("b");
    a->log->set_level(spdlog::level::debug);
    b->log->set_level(spdlog::level::debug);
    if (!first_use)
        sse::logger::set_logger(a->log);
    std::vector<std::thread> t;
    for (auto& f : ops)
        t.emplace_back([&f, a, b] {
            try {
                f(*a, *b);
            } catch (const std::exception& e) {
                mc::violation(std::string("an operation on the logger fails: ") + e.what());
            }
        });
    for (auto& x : t)
        x.join();
    auto l = sse::logger::logger();
    MC_CHECK(l != nullptr, "there is no logger any more");
    mc::Unmanaged u;
    mc::outcome(cat(a->keep->got) + cat(b->keep->got) + l->name());
}
#endif
} // namespace

void mc_register()
{
    const bool th = mc::thorough();
#ifndef LOG_SCHED
    auto add = [](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.forked      = true;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
    add("sequences of operations on the logger", 16, 2, [=] { sequences(th ? 5 : 4); });
    add("records of benchmarks", 16, 2, [=] { benchmarks(th ? 4 : 3, false); });
    add("messages of benchmarks", 16, 2, [=] { benchmarks(th ? 3 : 2, true); });
#else
    auto get = [](App&, App&) {
        auto l = sse::logger::logger();
        auto m = sse::logger::logger();
        MC_CHECK(l && m, "there is no logger");
        l->debug("get");
    };
    auto log     = [](App&, App&) { sse::logger::logger()->debug("log"); };
    auto set_b   = [](App&, App& b) { sse::logger::set_logger(b.log); };
    auto silence = [](App&, App&) { sse::logger::set_logger(nullptr); };
    auto level   = [](App&, App&) { sse::logger::set_logging_level(spdlog::level::info); };
    std::vector<std::pair<std::string, std::function<void(App&, App&)>>> ops
        = {{"get", get}, {"log", log}, {"replace", set_b}, {"silence", silence}, {"level", level}};
    for (int first = 0; first < 2; first++)
        for (size_t i = 0; i < ops.size(); i++)
            for (size_t j = i; j < ops.size(); j++) {
                mc::Config c;
                c.managed     = true;
                c.forked      = true;
                c.preemptions = 2;
                c.deep        = 1;
                mc::add(ops[i].first + " and " + ops[j].first + (first ? ", first use" : ""), c,
                        [=] { together({ops[i].second, ops[j].second}, first); });
            }
    mc::Config c;
    c.managed     = true;
    c.forked      = true;
    c.preemptions = 1;
    c.deep        = 1;
    c.shards      = 4;
    mc::add("three first uses", c, [=] { together({log, get, level}, true); });
#endif
}
