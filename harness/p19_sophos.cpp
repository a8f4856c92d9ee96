// P19: every history of Sophos up to a depth, each search through every
// procedure.
#ifndef P19_REAL
#include "mem_db.h"
#else
#include "store_common.h"
#endif
#include "mc.h"

#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <iostream>
#include <map>
#include <mutex>
#include <unistd.h>

namespace {
unsigned g_cores = 2;
}
// the number of cores of the machine is a parameter
unsigned int std::thread::hardware_concurrency() noexcept
{
    return g_cores;
}

namespace {
using namespace sse::sophos;
using Ids = std::vector<uint64_t>;

std::string s(size_t i)
{
    return std::to_string(i);
}
std::string show(const Ids& v)
{
    std::string o = "[";
    for (auto x : v)
        o += " " + s(x);
    return o + " ]";
}
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "", "kw1", std::string("kw\0", 3)};
    return n;
}

struct System
{
    std::string                   sk, pk;
    std::unique_ptr<SophosClient> client;
    std::unique_ptr<SophosServer> server;
    std::map<std::string, Ids>    model;
    std::string                   hist;
    size_t                        inserted = 0;

    static std::string cdir()
    {
        return mc::scratch() + "/client";
    }
    static std::string sdir()
    {
        return mc::scratch() + "/server";
    }
    static sse::crypto::Key<32> key(uint8_t b)
    {
        std::array<uint8_t, 32> k;
        k.fill(b);
        return sse::crypto::Key<32>(k.data());
    }
    void start_client()
    {
        client.reset();
        client = std::make_unique<SophosClient>(cdir(), sk, key(salt + 1), key(salt + 2));
        MC_CHECK(client->public_key() == pk, "the client has another public key," + hist);
        MC_CHECK(client->private_key() == sk, "the client has another private key," + hist);
    }
    void start_server()
    {
        server.reset();
        server = std::make_unique<SophosServer>(sdir(), pk);
    }
    static void clean()
    {
#ifdef P19_REAL
        store::wipe(cdir());
        store::wipe(sdir());
#else
        memdb::forget();
#endif
    }
    uint8_t salt = 0; // of the client's keys
    explicit System(uint8_t sa = 0) : salt(sa)
    {
        clean();
        standin::reset_world();
        sse::crypto::TdpInverse t;
        sk = t.private_key();
        pk = t.public_key();
        start_client();
        start_server();
    }
    void insert(const std::string& kw)
    {
        // 0, all ones and repeated indexes are among them
        static const uint64_t ids[] = {0, ~0UL, 5, 0x0102030405060708ull, 0};
        uint64_t              id    = ids[inserted % 5] + (inserted >= 5 ? inserted : 0);
        inserted++;
        server->insert(client->insertion_request(kw, id));
        model[kw].push_back(id);
    }

    static constexpr int kProcedures = 9;
    // threads: for the parallel procedures
    Ids run(const SearchRequest& request, int proc, uint8_t threads)
    {
        SearchRequest   req = request; // (the server consumes the keys)
        std::mutex      m;
        Ids             r;
        auto            cb = [&](index_type i) {
            std::lock_guard<std::mutex> g(m);
            r.push_back(i);
        };
        auto list = [&](const std::list<index_type>& l) {
            r.assign(l.begin(), l.end());
        };
        switch (proc) {
        case 0:
            list(server->search(req));
            break;
        case 1:
            server->search_callback(req, cb);
            break;
        case 2:
            list(server->search_parallel(req, threads));
            break;
        case 3:
            list(server->search_parallel_light(req, threads));
            break;
        case 4:
            server->search_parallel_light_callback(req, cb, threads);
            break;
        case 5:
            server->search_parallel_callback(req, cb, 1, threads, 1);
            break;
        case 6:
            server->search_parallel_callback(req, cb, threads, 1, 1);
            break;
        case 7:
            server->search_parallel_callback(req, cb, 1, 1, threads);
            break;
        case 8:
            server->search_parallel_callback(req, cb, threads, threads, threads);
            break;
        }
        return r;
    }
    void search(const std::string& kw, int proc, uint8_t threads)
    {
        static const char* n[] = {"search",
                                  "search_callback",
                                  "search_parallel",
                                  "search_parallel_light",
                                  "search_parallel_light_callback",
                                  "search_parallel_callback(1,n,1)",
                                  "search_parallel_callback(n,1,1)",
                                  "search_parallel_callback(1,1,n)",
                                  "search_parallel_callback(n,n,n)"};
        auto req = client->search_request(kw);
        Ids  e   = model.count(kw) ? model[kw] : Ids();
        MC_CHECK(req.add_count == e.size(), "a request for " + s(req.add_count) + " results instead of " + s(e.size()) + "," + hist);
        Ids  r   = run(req, proc, threads);
        std::sort(r.begin(), r.end());
        std::sort(e.begin(), e.end());
        MC_CHECK(r == e,
                 std::string(n[proc]) + " with " + s(threads) + " threads on " + s(g_cores)
                     + " cores yields " + show(r) + " instead of " + show(e) + "," + hist);
        mc::validated();
    }
    void search_all(const std::vector<uint8_t>& threads, size_t nkw)
    {
        for (size_t k = 0; k < nkw; k++) {
            search(names()[k], 0, 1);
            search(names()[k], 1, 1);
            for (uint8_t t : threads) {
                for (int p = 2; p < kProcedures; p++)
                    search(names()[k], p, t);
            }
        }
        // never inserted
        search("kw2", 0, 1);
        search("kw2", 2, 2);
    }
};

// nkw keywords, `depth` operations
void histories(size_t nkw, int depth, const std::vector<uint8_t>& threads)
{
    g_cores = 2;
    System sy;
    try {
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(2 * nkw + 2, "operation");
            if (op < (int)nkw) {
                sy.hist += " insert(" + s(op) + ")";
                sy.insert(names()[op]);
            } else if (op < 2 * (int)nkw) {
                sy.hist += " search(" + s(op - nkw) + ")";
                sy.search(names()[op - nkw], (i * 5 + sy.inserted) % System::kProcedures, 1 + i % 3);
            } else if (op == 2 * (int)nkw) {
                sy.hist += " restart-client";
                sy.start_client();
            } else {
                sy.hist += " restart-server";
                sy.start_server();
            }
            mc::transitions();
        }
        std::string st;
        for (auto& kv : sy.model)
            st += kv.first + ":" + show(kv.second) + ";";
        mc::state(st);
        sy.search_all(threads, nkw);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
}

// one keyword with n results, cores and threads
void long_lists()
{
    static const unsigned cores[] = {1, 2, 3, 8, 64};
    g_cores                       = cores[mc::choose(5, "cores")];
    static const size_t sizes[]   = {1, 2, 3, 4, 7, 8, 9, 16, 17, 40, 127, 129, 255, 256, 257, 300};
    size_t              ni        = mc::choose(16, "results");
    size_t              n         = sizes[ni];
    System              sy(16 * ni + g_cores % 16);
    for (size_t i = 0; i < n; i++)
        sy.insert(names()[0]);
    sy.hist = " " + s(n) + " insertions";
    try {
        // the pool of public keys is made for 2 * cores threads
        std::vector<uint8_t> threads;
        for (unsigned t : {1, 2, 3, 5, 8, 100}) {
            if (t <= 2 * g_cores && (t != 5 || mc::thorough()))
                threads.push_back(t);
        }
        sy.search_all(threads, 2);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions();
}
// more updates of one keyword than 16 bits count
void huge_list()
{
    g_cores      = 2;
    size_t n     = (1 << 16) + mc::choose(2, "more") * 5 - 1;
    bool   again = mc::flip("restart");
    System sy;
    for (size_t i = 0; i < n; i++)
        sy.insert(names()[0]);
    sy.hist = " " + s(n) + " insertions";
    try {
        if (again)
            sy.start_client();
        sy.insert(names()[0]);
        sy.search_all({2}, 1);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions(n);
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    bool t   = mc::thorough();
    auto add = [&](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
#ifdef P19_REAL
    int d1 = t ? 6 : 4, d2 = t ? 5 : 3;
    std::vector<uint8_t> th = {2};
#else
    int                  d1 = t ? 7 : 5, d2 = t ? 6 : 4;
    std::vector<uint8_t> th = t ? std::vector<uint8_t>{1, 2, 3, 4} : std::vector<uint8_t>{2};
#endif
    for (int d = 0; d <= d1; d++)
        add("one keyword, " + s(d) + " operations", d >= 4 ? 16 : 1, d >= 4 ? 3 : 1, [=] { histories(1, d, th); });
    for (int d = 1; d <= d2; d++)
        add("two keywords, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 3 : 1, [=] { histories(2, d, th); });
    if (t)
        add("four keywords, 4 operations", 16, 3, [=] { histories(4, 4, th); });
    else
        add("four keywords, 2 operations", 4, 2, [=] { histories(4, 2, th); });
#ifndef P19_REAL
    add("numbers of results, threads and cores", 40, 2, [] { long_lists(); });
    add("more than 65536 updates", 4, 2, [] { huge_list(); });
#endif
}
