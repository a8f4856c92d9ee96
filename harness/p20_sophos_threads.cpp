// P20: the parallel search procedures of Sophos, on every schedule.
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <atomic>
#include <iostream>

namespace {
unsigned g_cores = 2;
}
unsigned int std::thread::hardware_concurrency() noexcept
{
    return g_cores;
}

namespace {
using namespace sse::sophos;
std::string s(size_t i)
{
    return std::to_string(i);
}
sse::crypto::Key<32> key(uint8_t b)
{
    std::array<uint8_t, 32> k;
    k.fill(b);
    return sse::crypto::Key<32>(k.data());
}
constexpr uint64_t kId = 1000; // indexes: kId, kId + 1, ...

// proc: p search_parallel, l light, c callback, k light callback
void search(char proc, size_t n, int t1, int t2 = 1, int t3 = 1)
{
    std::atomic<int> delivered[4];
    std::atomic<int> odd{0};
    for (auto& d : delivered)
        d.store(0, std::memory_order_relaxed);
    auto deliver = [&](uint64_t id) {
        if (id < kId || id >= kId + n)
            odd.fetch_add(1, std::memory_order_relaxed);
        else
            delivered[id - kId].fetch_add(1, std::memory_order_relaxed);
    };
    std::unique_ptr<SophosClient> client;
    std::unique_ptr<SophosServer> server;
    SearchRequest                 req;
    {
        mc::Unmanaged u;
        memdb::forget();
        standin::reset_world();
        sse::crypto::TdpInverse t;
        client = std::make_unique<SophosClient>(mc::scratch() + "/client", t.private_key(), key(1), key(2));
        server = std::make_unique<SophosServer>(mc::scratch() + "/server", t.public_key());
        server->insert(client->insertion_request("other", 77));
        for (size_t i = 0; i < n; i++)
            server->insert(client->insertion_request("kw", kId + i));
        req = client->search_request("kw");
    }
    std::list<index_type> l;
    switch (proc) {
    case 'p':
        l = server->search_parallel(req, t1);
        break;
    case 'l':
        l = server->search_parallel_light(req, t1);
        break;
    case 'c':
        server->search_parallel_callback(req, deliver, t1, t2, t3);
        break;
    case 'k':
        server->search_parallel_light_callback(req, deliver, t1);
        break;
    }
    for (auto id : l)
        deliver(id);
    std::string o;
    for (auto id : l)
        o += s(id - kId);
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(delivered[i].load(std::memory_order_relaxed) == 1,
                 "result " + s(i) + " of " + s(n) + " was delivered " + s(delivered[i].load()) + " times");
    }
    MC_CHECK(odd.load() == 0, "an index which does not match was delivered");
    mc::outcome(o);
    // the next search is not disturbed
    {
        mc::Unmanaged u;
        auto          req2 = client->search_request("kw");
        MC_CHECK(server->search(req2).size() == n, "the search changed the database");
        server.reset();
        client.reset();
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    sse::logger::logger()->debug("started");
    auto add = [](const std::string& n, int pre, int deep, std::function<void()> f) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pre;
        c.shards      = 16;
        c.shard_depth = 6;
        c.deep        = deep - pre;
        mc::add(n, c, f);
    };
    add("light, 2 results, 2 threads", 3, 4, [] { search('l', 2, 2); });
    add("light, 3 results, 2 threads", 3, 4, [] { search('l', 3, 2); });
    add("light, 1 result, 2 threads", 3, 4, [] { search('l', 1, 2); });
    add("light, 3 results, 3 threads", 2, 2, [] { search('l', 3, 3); });
    add("light callback, 3 results, 2 threads", 2, 3, [] { search('k', 3, 2); });
    add("light callback, 3 results, 3 threads", 1, 2, [] { search('k', 3, 3); });
    add("parallel, no result", 2, 3, [] { search('p', 0, 1); });
    add("parallel, 1 result, 1 access thread", 2, 3, [] { search('p', 1, 1); });
    add("parallel, 2 results, 1 access thread", 2, 3, [] { search('p', 2, 1); });
    add("parallel, 3 results, 2 access threads", 0, 1, [] { search('p', 3, 2); });
    add("callback, 1 result, 1+1+1 threads", 2, 3, [] { search('c', 1, 1, 1, 1); });
    add("callback, 2 results, 1+1+1 threads", 1, 2, [] { search('c', 2, 1, 1, 1); });
    add("callback, 2 results, 2+1+1 threads", 0, 1, [] { search('c', 2, 2, 1, 1); });
    add("callback, 2 results, 1+2+1 threads", 0, 1, [] { search('c', 2, 1, 2, 1); });
    add("callback, 2 results, 1+1+2 threads", 0, 1, [] { search('c', 2, 1, 1, 2); });
}
