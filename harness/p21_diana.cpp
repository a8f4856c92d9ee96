// P21: every history of Diana up to a depth, each search through every
// procedure.
#ifndef P21_REAL
#include "mem_db.h"
#else
#include "store_common.h"
#endif
#include "mc.h"

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>

namespace {
using namespace sse::diana;

std::string s(size_t i)
{
    return std::to_string(i);
}
using Wide = std::array<uint8_t, 41>; // the size of a key share of Janus

template<typename T>
T make(uint64_t v);
template<>
uint64_t make<uint64_t>(uint64_t v)
{
    return v;
}
template<>
Wide make<Wide>(uint64_t v)
{
    Wide w;
    w.fill((uint8_t)(v >> 8));
    memcpy(w.data(), &v, 8);
    w[40] = (uint8_t)v;
    return w;
}
std::string show1(uint64_t v)
{
    return s(v);
}
std::string show1(const Wide& w)
{
    return sse::utility::hex_string(w);
}
template<typename T>
std::string show(const std::vector<T>& v)
{
    std::string o = "[";
    for (auto& x : v)
        o += " " + show1(x);
    return o + " ]";
}
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "", "kw1", std::string("kw\0", 3)};
    return n;
}

template<typename T>
struct System
{
    struct Entry
    {
        T    id;
        bool there; // not deleted on the server
    };
    std::unique_ptr<DianaClient<T>>           client;
    std::unique_ptr<DianaServer<T>>           server;
    std::map<std::string, std::vector<Entry>> model;
    std::string                               hist;
    size_t                                    inserted = 0;
    uint8_t                                   salt     = 0; // of the client's keys

    static std::string cdir()
    {
        return mc::scratch() + "/client";
    }
    static std::string sdir()
    {
        return mc::scratch() + "/server";
    }
    static sse::crypto::Key<32> key(uint8_t b)
    {
        std::array<uint8_t, 32> k;
        k.fill(b);
        return sse::crypto::Key<32>(k.data());
    }
    void start_client()
    {
        client.reset();
        client = std::make_unique<DianaClient<T>>(cdir(), key(salt + 1), key(salt + 2));
    }
    void start_server()
    {
        server.reset();
        server = std::make_unique<DianaServer<T>>(sdir());
    }
    explicit System(uint8_t sa = 0) : salt(sa)
    {
#ifdef P21_REAL
        store::wipe(cdir());
        store::wipe(sdir());
#else
        memdb::forget();
#endif
        standin::reset_world();
        start_client();
        start_server();
    }
    T next()
    {
        // 0, all ones and repeated indexes are among them
        static const uint64_t ids[] = {0, ~0UL, 5, 0x0102030405060708ull, 0};
        uint64_t              id    = ids[inserted % 5] + (inserted >= 5 ? inserted : 0);
        inserted++;
        return make<T>(id);
    }
    void insert(const std::string& kw)
    {
        T id = next();
        server->insert(client->insertion_request(kw, id));
        model[kw].push_back({id, true});
    }
    // the keywords with these numbers; the server gets the requests in any order
    void bulk(const std::vector<size_t>& kws, bool backwards = false)
    {
        std::list<std::pair<std::string, T>> l;
        for (size_t k : kws)
            l.emplace_back(names()[k], next());
        auto reqs = client->bulk_insertion_request(l);
        MC_CHECK(reqs.size() == l.size(), "a bulk request of " + s(reqs.size()) + " updates instead of " + s(l.size()) + "," + hist);
        if (backwards)
            reqs.reverse();
        for (auto& r : reqs)
            server->insert(r);
        for (auto& p : l)
            model[p.first].push_back({p.second, true});
    }
    void remove(const std::string& kw)
    {
        bool r = client->remove_keyword(kw);
        MC_CHECK(r, "remove_keyword fails," + hist);
        model[kw].clear();
    }

    static constexpr int kProcedures = 8;
    // through a procedure; drop: the results are deleted on the server
    void search(const std::string& kw, int proc, uint8_t threads, bool drop = false)
    {
        static const char* n[] = {"search",
                                  "search(callback)",
                                  "search_parallel",
                                  "search_parallel(callback)",
                                  "search_parallel(thread callback)",
                                  "search_parallel(vector)",
                                  "search_parallel(large vector)",
                                  "search_parallel(small vector)"};
        std::string what = std::string(n[proc]) + (drop ? " with deletion" : "") + " with " + s(threads) + " threads";
        auto&       e    = model[kw];
        const SearchRequest req = client->search_request(kw, proc % 2 == 0);
        MC_CHECK(req.add_count == e.size(), "a request for " + s(req.add_count) + " results instead of " + s(e.size()) + "," + hist);
        std::mutex     m;
        std::vector<T> r;
        auto           cb = [&](T i) {
            std::lock_guard<std::mutex> g(m);
            r.push_back(i);
        };
        auto list = [&](const std::list<T>& l) { r.assign(l.begin(), l.end()); };
        std::map<size_t, T>                leaves;
        std::map<unsigned, std::thread::id> owner;
        auto tl = [&](size_t leaf, T i, uint8_t th) {
            std::lock_guard<std::mutex> g(m);
            r.push_back(i);
            MC_CHECK(leaves.emplace(leaf, i).second, what + " delivers result " + s(leaf) + " twice," + hist);
            MC_CHECK(th < threads, what + " has a thread " + s(th) + "," + hist);
            auto it = owner.emplace(th, std::this_thread::get_id()).first;
            MC_CHECK(it->second == std::this_thread::get_id(), what + " uses the number " + s(th) + " in two threads," + hist);
        };
        std::vector<T> vec;
        switch (proc) {
        case 0:
            list(drop ? server->search(req, true) : server->search(req));
            break;
        case 1:
            if (drop)
                server->search(req, cb, true);
            else
                server->search(req, cb);
            break;
        case 2:
            list(drop ? server->search_parallel(req, threads, true) : server->search_parallel(req, threads));
            break;
        case 3:
            server->search_parallel(req, typename DianaServer<T>::basic_callback_type(cb), threads, drop);
            break;
        case 4:
            server->search_parallel(req, typename DianaServer<T>::tl_callback_type(tl), threads, drop);
            break;
        case 6:
            vec.resize(e.size() + 3, make<T>(0x7777));
            // fall through
        case 7:
            if (proc == 7)
                vec.resize((e.size() + 1) / 2, make<T>(0x7777));
            // fall through
        case 5:
            server->search_parallel(req, threads, vec, drop);
            MC_CHECK(vec.size() >= e.size(), what + " yields " + s(vec.size()) + " instead of " + s(e.size()) + " results," + hist);
            for (size_t i = 0; i < e.size(); i++)
                if (e[i].there)
                    leaves[i] = vec[i];
            break;
        }
        std::vector<T> x;
        for (auto& i : e)
            if (i.there)
                x.push_back(i.id);
        if (proc < 5) {
            auto a = r, b = x;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            MC_CHECK(a == b, what + " yields " + show(r) + " instead of " + show(x) + "," + hist);
        }
        if (proc >= 4) {
            MC_CHECK(leaves.size() == x.size(), what + " yields " + s(leaves.size()) + " instead of " + s(x.size()) + " results," + hist);
            for (auto& l : leaves) {
                MC_CHECK(l.first < e.size() && e[l.first].there && e[l.first].id == l.second,
                         what + " yields " + show1(l.second) + " as result " + s(l.first) + "," + hist);
            }
        }
        if (drop)
            for (auto& i : e)
                i.there = false;
        mc::validated();
    }
    void search_all(const std::vector<uint8_t>& threads, size_t nkw)
    {
        for (size_t k = 0; k < nkw; k++) {
            uint32_t c = client->get_match_count(names()[k]);
            MC_CHECK(c == model[names()[k]].size(),
                     "get_match_count is " + s(c) + " instead of " + s(model[names()[k]].size()) + "," + hist);
            search(names()[k], 0, 1);
            search(names()[k], 1, 1);
            for (uint8_t t : threads) {
                for (int p = 2; p < kProcedures; p++)
                    search(names()[k], p, t);
            }
        }
        // never inserted
        MC_CHECK(client->get_match_count("kw2") == 0, "an unknown keyword has matches," + hist);
        for (int p = 0; p < kProcedures; p++)
            search("kw2", p, 2);
    }
    // the results of one keyword are deleted: only these
    void delete_all(size_t nkw, bool deep)
    {
        for (size_t k = 0; k < nkw; k++) {
            int proc = (inserted + k + (int)hist.size()) % kProcedures;
            hist += " delete(" + s(k) + "," + s(proc) + ")";
            search(names()[k], proc, 1 + inserted % 3, true);
            for (size_t j = 0; j < nkw; j++) {
                search(names()[j], 0, 1);
                if (deep)
                    search(names()[j], 4, 2);
            }
        }
        // new insertions are found all the same
        insert(names()[0]);
        search(names()[0], 0, 1);
        search(names()[0], 5, 2);
    }
};

template<typename T>
void histories(size_t nkw, int depth, const std::vector<uint8_t>& threads)
{
    System<T> sy;
    try {
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(4 * nkw + 4, "operation");
            int n  = (int)nkw;
            sy.hist += " ";
            if (op < n) {
                sy.hist += "insert(" + s(op) + ")";
                sy.insert(names()[op]);
            } else if (op < 2 * n) {
                sy.hist += "remove(" + s(op - n) + ")";
                sy.remove(names()[op - n]);
            } else if (op < 3 * n) {
                sy.hist += "search(" + s(op - 2 * n) + ")";
                sy.search(names()[op - 2 * n], (i * 5 + sy.inserted) % System<T>::kProcedures, 1 + i % 3);
            } else if (op < 4 * n) {
                sy.hist += "delete-results(" + s(op - 3 * n) + ")";
                sy.search(names()[op - 3 * n], (i * 3 + sy.inserted) % System<T>::kProcedures, 1 + i % 3, true);
            } else if (op == 4 * n) {
                sy.hist += "restart-client";
                sy.start_client();
            } else if (op == 4 * n + 1) {
                sy.hist += "restart-server";
                sy.start_server();
            } else if (op == 4 * n + 2) {
                sy.hist += "bulk(0,0)";
                sy.bulk({0, 0});
            } else {
                sy.hist += "bulk(last,0,last) backwards";
                sy.bulk({nkw - 1, 0, nkw - 1}, true);
            }
            mc::transitions();
        }
        std::string st;
        for (auto& kv : sy.model) {
            st += kv.first + ":";
            for (auto& e : kv.second)
                st += show1(e.id) + (e.there ? "," : "-,");
        }
        mc::state(st);
        sy.search_all(threads, nkw);
        sy.delete_all(nkw, mc::thorough());
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
}

template<typename T>
void long_lists()
{
    static const size_t sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 40, 64, 127, 129, 255, 256, 257, 300, 520};
    static const unsigned ts[]  = {1, 2, 3, 4, 5, 7, 8, 16, 100, 200, 254, 255};
    size_t  ni = mc::choose(20, "results"), ti = mc::choose(12, "threads");
    size_t  n = sizes[ni];
    uint8_t t = ts[ti];
    bool    b = mc::choose(2, "bulk");
    if (!mc::thorough() && n > 100 && t != 1 && t % 3 == b)
        return;
    System<T> sy(12 * ni + ti);
    try {
        sy.insert(names()[1]);
        if (b)
            sy.bulk(std::vector<size_t>(n, 0));
        else
            for (size_t i = 0; i < n; i++)
                sy.insert(names()[0]);
        sy.hist = " " + s(n) + " insertions";
        sy.search_all({t}, 2);
        sy.hist += " delete";
        sy.search(names()[0], t % System<T>::kProcedures, t, true);
        for (int p = 0; p < System<T>::kProcedures; p++)
            sy.search(names()[0], p, t);
        sy.search(names()[1], 0, t);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions();
}
// more updates of one keyword than 16 bits count
void huge_list()
{
    size_t           n = (1 << 16) + mc::choose(2, "more") * 5 - 1;
    bool             b = mc::flip("bulk");
    System<uint64_t> sy;
    sy.hist = " " + s(n) + " insertions";
    try {
        if (b)
            sy.bulk(std::vector<size_t>(n, 0));
        else
            for (size_t i = 0; i < n; i++)
                sy.insert(names()[0]);
        sy.insert(names()[0]);
        sy.search_all({3}, 1);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions(n);
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    bool t   = mc::thorough();
    auto add = [&](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
#ifdef P21_REAL
    int                  d1 = t ? 4 : 3, d2 = t ? 3 : 2, dw = t ? 3 : 2;
    std::vector<uint8_t> th = {2};
#else
    int                  d1 = t ? 6 : 4, d2 = t ? 4 : 3, dw = t ? 4 : 3;
    std::vector<uint8_t> th = t ? std::vector<uint8_t>{1, 2, 3, 4} : std::vector<uint8_t>{2};
#endif
    for (int d = 0; d <= d1; d++)
        add("one keyword, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 2 : 1, [=] { histories<uint64_t>(1, d, th); });
    for (int d = 1; d <= d2; d++)
        add("two keywords, " + s(d) + " operations", d >= 2 ? 16 : 1, d >= 2 ? 2 : 1, [=] { histories<uint64_t>(2, d, th); });
    add("wide results, " + s(dw) + " operations", 16, 2, [=] { histories<Wide>(1, dw, th); });
#ifdef P21_REAL
    if (t)
#endif
    add("four keywords, " + s(t ? 3 : 2) + " operations", 16, 2, [=] { histories<uint64_t>(4, t ? 3 : 2, th); });
#ifndef P21_REAL
    add("more than 65536 updates", 4, 2, [] { huge_list(); });
    add("numbers of results and threads", 40, 2, [] { long_lists<uint64_t>(); });
    if (t)
        add("numbers of wide results and threads", 40, 2, [] { long_lists<Wide>(); });
#endif
}
