// P30: the generator of random databases.
#include "mc.h"

#include <sse/schemes/utils/db_generator.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <atomic>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <thread>

namespace {
unsigned              g_cores = 1;
std::atomic<uint64_t> g_next;
uint64_t              g_mul, g_add;
} // namespace
unsigned int std::thread::hardware_concurrency() noexcept
{
    return g_cores;
}
bool mc_draw(uint64_t* v)
{
    mc::Unmanaged u;
    *v = g_add + g_mul * g_next++;
    return true;
}

namespace {
using Rec = std::vector<std::pair<std::string, uint64_t>>;
std::string s(uint64_t x)
{
    return std::to_string(x);
}
struct Family
{
    std::string name;
    uint64_t    size;
};
const std::vector<Family>& families()
{
    static const std::vector<Family> f = {{"Group-10^1_", 10}, {"Group-20_", 20}, {"Group-30_", 30}, {"Group-60_", 60}, {"Group-10^2_", 100},
                                          {"Group-10^3_", 1000}, {"Group-10^4_", 10000}, {"Group-10^5_", 100000}, {"Group-10^6_", 1000000}};
    return f;
}
bool starts(const std::string& a, const std::string& b)
{
    return a.compare(0, b.size(), b) == 0;
}
// the two numbers "t_c" at the end of a keyword
std::pair<uint64_t, uint64_t> numbers(const std::string& kw, size_t at)
{
    size_t u = kw.find('_', at);
    MC_CHECK(u != std::string::npos && u > at && u + 1 < kw.size()
                 && kw.find_first_not_of("0123456789_", at) == std::string::npos && kw.find('_', u + 1) == std::string::npos,
             "keyword " + kw + " is of no known form");
    return {std::stoull(kw.substr(at, u - at)), std::stoull(kw.substr(u + 1))};
}

void check(const Rec& rec, uint64_t n, const std::string& what)
{
    struct Doc
    {
        std::multiset<std::string> percent;
        std::vector<uint64_t>      family = std::vector<uint64_t>(9), random = std::vector<uint64_t>(7);
        std::set<uint64_t>         threads;
        size_t                     others = 0;
    };
    std::map<uint64_t, Doc> docs;
    // by family and thread: documents by group
    std::vector<std::map<uint64_t, std::map<uint64_t, uint64_t>>> groups(9), random(7);
    for (auto& r : rec) {
        Doc& d = docs[r.second];
        if (starts(r.first, "Group-rand-10^")) {
            MC_CHECK(r.first.size() > 16 && r.first[14] >= '1' && r.first[14] <= '6' && r.first[15] == '_', "keyword " + r.first + " is of no known form");
            size_t k = r.first[14] - '0';
            auto   t = numbers(r.first, 16);
            d.random[k]++;
            d.threads.insert(t.first);
            random[k][t.first][t.second]++;
            continue;
        }
        bool found = false;
        for (size_t i = 0; i < 9 && !found; i++) {
            if (!starts(r.first, families()[i].name))
                continue;
            auto t = numbers(r.first, families()[i].name.size());
            d.family[i]++;
            d.threads.insert(t.first);
            groups[i][t.first][t.second]++;
            found = true;
        }
        if (!found)
            d.percent.insert(r.first);
    }
    MC_CHECK(docs.size() == n, s(docs.size()) + " documents are generated instead of " + s(n) + what);
    std::map<uint64_t, uint64_t> by_thread;
    for (auto& kv : docs) {
        uint64_t                   x = kv.first;
        std::multiset<std::string> e;
        for (int p = 1; p <= 2; p++, x /= 1000) {
            e.insert("0.1_" + s(x % 1000) + "_" + s(p));
            e.insert("1_" + s(x % 100) + "_" + s(p));
            e.insert("10_" + s(x % 10) + "_" + s(p));
        }
        MC_CHECK(kv.second.percent == e, "document " + s(kv.first) + " does not have the keywords of its number" + what);
        for (size_t i = 0; i < 9; i++)
            MC_CHECK(kv.second.family[i] == 1, "document " + s(kv.first) + " is in " + s(kv.second.family[i]) + " groups " + families()[i].name + what);
        for (size_t k = 1; k < 7; k++)
            MC_CHECK(kv.second.random[k] <= 1, "document " + s(kv.first) + " is inserted " + s(kv.second.random[k]) + " times in random groups of 10^" + s(k) + what);
        MC_CHECK(kv.second.threads.size() == 1, "document " + s(kv.first) + " is in groups of several threads" + what);
        by_thread[*kv.second.threads.begin()]++;
    }
    for (size_t i = 0; i < 9; i++) {
        uint64_t size = families()[i].size;
        for (auto& t : groups[i]) {
            uint64_t c = 0;
            for (auto& g : t.second) {
                bool last = c + 1 == t.second.size();
                MC_CHECK(g.first == c++, "group " + s(c) + " of " + families()[i].name + " is missing" + what);
                MC_CHECK(last ? g.second <= size : g.second == size,
                         "group " + families()[i].name + s(t.first) + "_" + s(g.first) + " has " + s(g.second) + " documents" + what);
            }
        }
    }
    uint64_t size = 1;
    for (size_t k = 1; k < 7; k++) {
        size *= 10;
        for (auto& t : random[k])
            for (auto& g : t.second)
                MC_CHECK(g.second <= size, "random group 10^" + s(k) + "_" + s(t.first) + "_" + s(g.first) + " has " + s(g.second) + " documents" + what);
    }
    mc::validated(rec.size());
}

void generate(uint64_t n, unsigned cores, uint64_t mul, uint64_t add)
{
    g_cores = cores;
    g_next  = 0;
    g_mul   = mul;
    g_add   = add;
    Rec*        rec  = new Rec;
    bool*       over = new bool(false);
    std::mutex  mtx;
    std::string what = " (" + s(n) + " documents, " + s(cores) + " threads, numbers " + s(add) + " + i * " + s(mul) + ")";
    sse::sophos::gen_db(n, [&](const std::string& kw, size_t i) {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(mtx);
        MC_CHECK(!*over, "a document is generated after the end of the generation");
        rec->emplace_back(kw, i);
    });
    mc::Unmanaged u;
    *over = true;
    check(*rec, n, what);
    mc::transitions();
    mc::state(what);
    delete rec;
    delete over;
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    sse::logger::logger()->debug("started");
    const bool th = mc::thorough();
#ifdef GEN_SCHED
    for (unsigned cores : {1, 2, 3})
        for (uint64_t n : {0, 1, 2, 3, 4}) {
            mc::Config c;
            c.managed     = true;
            c.preemptions = cores == 3 ? 1 : 2;
            c.deep        = 1;
            c.shards      = n * cores > 4 ? 8 : 1;
            c.shard_depth = 6;
            mc::add(s(n) + " documents by " + s(cores) + " threads", c, [=] { generate(n, cores, 1, 0); });
        }
#else
    // consecutive numbers, all of them in the same random groups, large and scattered ones
    static const std::vector<std::pair<uint64_t, uint64_t>> patterns
        = {{1, 0}, {2520, 3}, {~uint64_t(0), ~uint64_t(0)}, {0x9E3779B97F4A7C15, 12345}};
    auto add = [&](const std::string& name, int shards, std::function<uint64_t(int)> size, int sizes, unsigned cores) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = 3;
        mc::add(name, c, [=] {
            unsigned k = 1 + mc::choose(cores, "threads");
            auto     p = patterns[mc::choose(patterns.size(), "pattern")];
            uint64_t n = size(mc::choose(sizes, "documents"));
            generate(n, k, p.first, p.second);
        });
    };
    add("up to " + s(th ? 500 : 250) + " documents", 8, [](int i) { return i; }, th ? 501 : 251, 4);
    // around the first groups of each size for each number of threads
    add("around one and two hundred per thread", 8, [](int i) { return 100 * (1 + i / 5) + i % 5 - 2; }, th ? 60 : 30, 8);
    add("around the thousands", 8, [](int i) { return 1000 * (1 + i / 3) + 200 * ((i / 3) % 2) + i % 3 - 1; }, th ? 24 : 9, th ? 4 : 2);
    add("around ten thousand", 8, [](int i) { return std::vector<uint64_t>{9999, 10001, 12001, 14500}[i]; }, th ? 4 : 3, 1);
    if (th)
        add("around a hundred thousand", 8, [](int i) { return std::vector<uint64_t>{100001, 121000}[i]; }, 2, 1);
#endif
}
