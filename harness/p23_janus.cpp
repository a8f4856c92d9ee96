// P23: every history of Janus up to a depth.
// P23_REAL: on RocksDB.  P23_SCHED: chosen histories, on every schedule.
#ifndef P23_REAL
#include "mem_db.h"
#else
#include "store_common.h"
#endif
#include "mc.h"

#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <unistd.h>

namespace {
using namespace sse::janus;
using Ids = std::vector<uint64_t>;

std::string s(size_t i)
{
    return std::to_string(i);
}
std::string show(const Ids& v)
{
    std::string o = "[";
    for (auto x : v)
        o += " " + s(x);
    return o + " ]";
}
// (a keyword is preceded by the number of the search in the names of epochs)
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "00000001kw", "", std::string("kw\0", 3)};
    return n;
}
uint64_t id_of(size_t i)
{
    static const uint64_t ids[] = {0, ~0UL, 5, 0x0102030405060708ull};
    return i < 4 ? ids[i] : 1000 + i;
}

struct System
{
    std::unique_ptr<JanusClient>                        client;
    std::unique_ptr<JanusServer>                        server;
    std::map<std::string, Ids>                          model;
    std::set<std::pair<std::string, uint64_t>>          deleted;
    std::string                                         hist;

    static std::string dir(const char* n)
    {
        return mc::scratch() + "/" + n;
    }
    void start_client()
    {
        client.reset();
        std::array<uint8_t, 32> k;
        k.fill(0x42);
        client = std::make_unique<JanusClient>(dir("c-search"), dir("c-add"), dir("c-del"), sse::crypto::Key<32>(k.data()));
    }
    void start_server()
    {
        server.reset();
        server = std::make_unique<JanusServer>(dir("s-add"), dir("s-del"), dir("s-cache"));
    }
    System()
    {
#ifdef P23_REAL
        for (auto d : {"c-search", "c-add", "c-del", "s-add", "s-del", "s-cache"})
            store::wipe(dir(d));
#else
        memdb::forget();
#endif
        standin::reset_world();
        start_client();
        start_server();
    }
    bool may_insert(const std::string& kw, uint64_t id)
    {
        return !deleted.count({kw, id});
    }
    void insert(const std::string& kw, uint64_t id)
    {
        server->insert(client->insertion_request(kw, id));
        model[kw].push_back(id);
    }
    void remove(const std::string& kw, uint64_t id)
    {
        server->remove(client->removal_request(kw, id));
        auto& v = model[kw];
        v.erase(std::remove(v.begin(), v.end(), id), v.end());
        deleted.insert({kw, id});
    }
    static constexpr int kProcedures = 4;
    Ids run(SearchRequest& req, int proc, uint8_t threads)
    {
        std::mutex m;
        Ids        r;
        switch (proc) {
        case 0: {
            auto l = server->search(req);
            r.assign(l.begin(), l.end());
            break;
        }
        case 1: {
            auto l = server->search_parallel(req, threads);
            r.assign(l.begin(), l.end());
            break;
        }
        case 2:
            server->search_parallel(req, threads, std::function<void(index_type)>([&](index_type i) {
                                        std::lock_guard<std::mutex> g(m);
                                        r.push_back(i);
                                    }));
            break;
        case 3:
            server->search_parallel(req, threads, std::function<void(index_type, uint8_t)>([&](index_type i, uint8_t t) {
                                        std::lock_guard<std::mutex> g(m);
                                        r.push_back(i);
                                        MC_CHECK(t <= threads, "a thread number " + s(t) + " with " + s(threads) + " threads," + hist);
                                    }));
            break;
        }
        return r;
    }
    void search(const std::string& kw, int proc, uint8_t threads)
    {
        static const char* n[]
            = {"search", "search_parallel", "search_parallel(callback)", "search_parallel(thread callback)"};
        SearchRequest req = client->search_request(kw);
        Ids           e = model[kw], r = run(req, proc, threads);
        std::sort(r.begin(), r.end());
        std::sort(e.begin(), e.end());
        MC_CHECK(r == e,
                 std::string(n[proc]) + " with " + s(threads) + " threads yields " + show(r) + " instead of " + show(e)
                     + "," + hist);
        mc::validated();
    }
    // every keyword; the first search sees the updates, the next ones the cache
    void search_all(size_t nkw, int first)
    {
        for (size_t k = 0; k < nkw; k++)
            for (int i = 0; i < kProcedures; i++)
                search(names()[k], (first + i) % kProcedures, 1 + (i + k) % 2);
        search("kw2", first, 1); // never inserted
    }
};

#ifndef P23_SCHED
// nkw keywords, nid indexes, `depth` operations
void histories(size_t nkw, size_t nid, int depth)
{
    System sy;
    try {
        size_t pairs = nkw * nid;
        for (int i = 0; i < depth; i++) {
            // insertions, removals, searches (sequential or not), restarts
            size_t op = mc::choose(2 * pairs + 2 * nkw + 2, "operation");
            if (op < pairs) {
                auto&    kw = names()[op / nid];
                uint64_t id = id_of(op % nid);
                if (!sy.may_insert(kw, id))
                    return; // not specified
                sy.hist += " insert(" + s(op / nid) + "," + s(op % nid) + ")";
                sy.insert(kw, id);
            } else if (op < 2 * pairs) {
                op -= pairs;
                sy.hist += " remove(" + s(op / nid) + "," + s(op % nid) + ")";
                sy.remove(names()[op / nid], id_of(op % nid));
            } else if (op < 2 * pairs + nkw) {
                op -= 2 * pairs;
                sy.hist += " search(" + s(op) + ")";
                sy.search(names()[op], 0, 1);
            } else if (op < 2 * pairs + 2 * nkw) {
                op -= 2 * pairs + nkw;
                sy.hist += " search_parallel(" + s(op) + ")";
                sy.search(names()[op], 1 + i % 3, 1 + i % 2);
            } else if (op == 2 * pairs + 2 * nkw) {
                sy.hist += " restart-client";
                sy.start_client();
            } else {
                sy.hist += " restart-server";
                sy.start_server();
            }
            mc::transitions();
        }
        std::string st;
        for (auto& kv : sy.model)
            st += kv.first + ":" + show(kv.second) + ";";
        for (auto& d : sy.deleted)
            st += d.first + "-" + s(d.second) + ";";
        mc::state(st);
        int first = mc::choose(2, "last search");
        sy.hist += first ? " search_parallel(all)" : " search(all)";
        sy.search_all(nkw, first ? 1 + depth % 3 : 0);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
}
// a insertions, then d deletions, c of them before a search, with t threads
void long_lists()
{
    static const size_t as[] = {0, 1, 2, 3, 17, 40, 130, 260}, ds[] = {0, 1, 2, 3, 5, 16, 129, 257};
    static const unsigned ts[] = {1, 2, 3, 8, 254, 255};
    size_t  a = as[mc::choose(8, "insertions")], d = ds[mc::choose(8, "deletions")];
    uint8_t t = ts[mc::choose(6, "threads")];
    int     p = mc::choose(System::kProcedures, "procedure");
    if (p == 0 && t != 1)
        return;
    if (!mc::thorough() && (a * d > 2000 || (a + d > 20 && (t == 3 || t == 254))))
        return;
    System sy;
    sy.hist = " " + s(a) + " insertions and " + s(d) + " deletions";
    try {
        sy.insert(names()[2], id_of(0));
        for (size_t i = 0; i < a; i++)
            sy.insert(names()[0], id_of(i));
        for (size_t i = 0; i < d; i++)
            sy.remove(names()[0], id_of(2 * i)); // (inserted or not)
        sy.search(names()[0], p, t);
        sy.hist += " search";
        for (size_t i = 0; i < d; i++)
            sy.remove(names()[0], id_of(3 * i + 1));
        for (size_t i = 0; i < 3; i++)
            sy.insert(names()[0], id_of(5000 + i));
        sy.search(names()[0], p, t);
        sy.hist += " search";
        sy.search(names()[0], p, t);
        sy.search(names()[2], p, t);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions();
}
#else
// cached, removed from the cache, inserted, removed at once
void schedule(int proc, uint8_t threads, size_t cached, size_t removed, size_t fresh, size_t dead)
{
    std::unique_ptr<System>        sy;
    std::unique_ptr<SearchRequest> req;
    {
        mc::Unmanaged u;
        sy = std::make_unique<System>();
        for (size_t i = 0; i < cached; i++)
            sy->insert("kw", id_of(i));
        sy->search("kw", 0, 1);
        for (size_t i = 0; i < fresh; i++)
            sy->insert("kw", id_of(10 + i));
        for (size_t i = 0; i < removed; i++)
            sy->remove("kw", id_of(i));
        for (size_t i = 0; i < dead; i++)
            sy->remove("kw", id_of(10 + i));
        req = std::make_unique<SearchRequest>(sy->client->search_request("kw"));
    }
    Ids r = sy->run(*req, proc, threads);
    std::string o;
    for (auto i : r)
        o += " " + s(i);
    mc::outcome(o);
    Ids e = sy->model["kw"];
    std::sort(r.begin(), r.end());
    std::sort(e.begin(), e.end());
    MC_CHECK(r == e, "the search yields " + show(r) + " instead of " + show(e));
    mc::Unmanaged u;
    sy->search("kw", 0, 1);
    sy.reset();
}
#endif
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    bool t = mc::thorough();
    (void)t;
#ifdef P23_SCHED
    sse::logger::logger()->debug("started");
    auto add = [](const std::string& n, int pre, int deep, std::function<void()> f) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pre;
        c.shards      = 16;
        c.shard_depth = 4;
        c.deep        = deep - pre;
        mc::add(n, c, f);
    };
    for (int p = 1; p < 4; p++) {
        add("procedure " + s(p) + ", 1 thread", 3, 4, [=] { schedule(p, 1, 2, 1, 2, 1); });
        add("procedure " + s(p) + ", 2 threads", 2, 3, [=] { schedule(p, 2, 2, 1, 2, 1); });
        add("procedure " + s(p) + ", no deletion", 3, 4, [=] { schedule(p, 2, 2, 0, 2, 0); });
        add("procedure " + s(p) + ", nothing cached", 3, 4, [=] { schedule(p, 2, 0, 0, 2, 1); });
    }
#else
    auto add = [&](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
#ifdef P23_REAL
    int d1 = t ? 4 : 3, d2 = t ? 3 : 1;
#else
    int d1 = t ? 6 : 4, d2 = t ? 5 : 3;
#endif
    for (int d = 0; d <= d1; d++)
        add("one keyword, two indexes, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 2 : 1, [=] { histories(1, 2, d); });
    int d3 = t ? d1 : 3, d4 = t ? d2 : 2;
#ifdef P23_REAL
    if (t)
#endif
    add("one keyword, three indexes, " + s(d3) + " operations", 16, 2, [=] { histories(1, 3, d3); });
    for (int d = 1; d <= d2; d++)
        add("two keywords, two indexes, " + s(d) + " operations", d >= 2 ? 16 : 1, d >= 2 ? 2 : 1, [=] { histories(2, 2, d); });
#ifndef P23_REAL
    int d5 = t ? d2 + 1 : 3;
    add("two keywords, one index, " + s(d5) + " operations", 16, 2, [=] { histories(2, 1, d5); });
    add("four keywords, one index, " + s(d4) + " operations", 16, 2, [=] { histories(4, 1, d4); });
    add("numbers of insertions, deletions and threads", 40, 3, [] { long_lists(); });
#endif
#endif
}
