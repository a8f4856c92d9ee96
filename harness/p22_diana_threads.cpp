// P22: the parallel search procedures of Diana, on every schedule.
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <atomic>
#include <iostream>

namespace {
using namespace sse::diana;
std::string s(size_t i)
{
    return std::to_string(i);
}
sse::crypto::Key<32> key(uint8_t b)
{
    std::array<uint8_t, 32> k;
    k.fill(b);
    return sse::crypto::Key<32>(k.data());
}
constexpr uint64_t kId = 1000; // indexes: kId, kId + 1, ...

// proc: l list, c callback, t thread callback, v vector
void search(char proc, size_t n, int threads, bool drop = false)
{
    std::atomic<int> delivered[6];
    std::atomic<int> odd{0};
    int              per_thread[8] = {}; // not atomic: one thread has each number
    for (auto& d : delivered)
        d.store(0, std::memory_order_relaxed);
    auto deliver = [&](uint64_t id) {
        if (id < kId || id >= kId + n)
            odd.fetch_add(1, std::memory_order_relaxed);
        else
            delivered[id - kId].fetch_add(1, std::memory_order_relaxed);
    };
    std::unique_ptr<DianaClient<uint64_t>> client;
    std::unique_ptr<DianaServer<uint64_t>> server;
    std::unique_ptr<SearchRequest>         req;
    {
        mc::Unmanaged u;
        memdb::forget();
        standin::reset_world();
        client = std::make_unique<DianaClient<uint64_t>>(mc::scratch() + "/client", key(1), key(2));
        server = std::make_unique<DianaServer<uint64_t>>(mc::scratch() + "/server");
        server->insert(client->insertion_request("other", 77));
        for (size_t i = 0; i < n; i++)
            server->insert(client->insertion_request("kw", kId + i));
        req = std::make_unique<SearchRequest>(client->search_request("kw"));
    }
    std::string o;
    switch (proc) {
    case 'l': {
        auto l = server->search_parallel(*req, threads, drop);
        for (auto id : l) {
            deliver(id);
            o += s(id - kId);
        }
        break;
    }
    case 'c':
        server->search_parallel(*req, DianaServer<uint64_t>::basic_callback_type(deliver), threads, drop);
        break;
    case 't':
        server->search_parallel(
            *req,
            DianaServer<uint64_t>::tl_callback_type([&](size_t i, uint64_t id, uint8_t th) {
                deliver(id);
                if (id != kId + i || th >= threads)
                    odd.fetch_add(1, std::memory_order_relaxed);
                else
                    per_thread[th]++;
            }),
            threads,
            drop);
        break;
    case 'v': {
        std::vector<uint64_t> v;
        server->search_parallel(*req, threads, v, drop);
        MC_CHECK(v.size() == n, "a vector of " + s(v.size()) + " instead of " + s(n));
        for (size_t i = 0; i < n; i++) {
            MC_CHECK(v[i] == kId + i, "result " + s(i) + " is " + s(v[i]));
            deliver(v[i]);
        }
        break;
    }
    }
    for (int t : per_thread)
        o += "," + s(t);
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(delivered[i].load(std::memory_order_relaxed) == 1,
                 "result " + s(i) + " of " + s(n) + " was delivered " + s(delivered[i].load()) + " times");
    }
    MC_CHECK(odd.load() == 0, "an index which does not match, or a wrong position or thread number was delivered");
    mc::outcome(o);
    {
        mc::Unmanaged u;
        MC_CHECK(server->search(client->search_request("kw")).size() == (drop ? 0 : n),
                 drop ? "the results were not deleted" : "the search changed the database");
        MC_CHECK(server->search(client->search_request("other")).size() == 1, "the search changed another keyword");
        server.reset();
        client.reset();
    }
}
// two searches at the same time
void concurrent(size_t n, bool same)
{
    std::unique_ptr<DianaClient<uint64_t>> client;
    std::unique_ptr<DianaServer<uint64_t>> server;
    std::unique_ptr<SearchRequest>         req[2];
    {
        mc::Unmanaged u;
        memdb::forget();
        standin::reset_world();
        client = std::make_unique<DianaClient<uint64_t>>(mc::scratch() + "/client", key(1), key(2));
        server = std::make_unique<DianaServer<uint64_t>>(mc::scratch() + "/server");
        for (int k = 0; k < 2; k++)
            for (size_t i = 0; i < n; i++)
                server->insert(client->insertion_request(same ? "kw" : "kw" + s(k), kId + i));
        for (int k = 0; k < 2; k++)
            req[k] = std::make_unique<SearchRequest>(client->search_request(same ? "kw" : "kw" + s(k)));
    }
    std::list<uint64_t> l[2];
    auto                job = [&](int k) { l[k] = k ? server->search_parallel(*req[k], 1) : server->search(*req[k]); };
    std::thread         a(job, 0);
    job(1);
    a.join();
    for (auto& x : l)
        MC_CHECK(x.size() == (same ? 2 * n : n), "a search yields " + s(x.size()) + " results");
    mc::Unmanaged u;
    server.reset();
    client.reset();
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    sse::logger::logger()->debug("started");
    auto add = [](const std::string& n, int pre, int deep, std::function<void()> f) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pre;
        c.shards      = 16;
        c.shard_depth = 5;
        c.deep        = deep - pre;
        mc::add(n, c, f);
    };
    static const char* n[] = {"list", "callback", "thread callback", "vector"};
    for (int p = 0; p < 4; p++) {
        char c = "lctv"[p];
        add(std::string(n[p]) + ", 2 results, 2 threads", 2, 4, [=] { search(c, 2, 2); });
        add(std::string(n[p]) + ", 1 result, 3 threads", 3, 5, [=] { search(c, 1, 3); });
        add(std::string(n[p]) + ", 3 results, 2 threads, deletion", 2, 3, [=] { search(c, 3, 2, true); });
        add(std::string(n[p]) + ", 3 results, 3 threads", 1, 2, [=] { search(c, 3, 3); });
        add(std::string(n[p]) + ", 5 results, 3 threads", 1, 2, [=] { search(c, 5, 3); });
        add(std::string(n[p]) + ", no result", 2, 3, [=] { search(c, 0, 2); });
    }
    add("4 results, 4 threads, deletion", 1, 1, [] { search('l', 4, 4, true); });
    add("two searches", 2, 3, [] { concurrent(2, false); });
    add("two searches for one keyword", 2, 3, [] { concurrent(1, true); });
}
