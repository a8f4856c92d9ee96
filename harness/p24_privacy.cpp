// P24: what the server can compute, over every history of updates and searches.
// The stand-in cryptography registers how each value was computed; the server
// knows what it was sent, what it computed itself, and all that follows.
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <iostream>
#include <map>
#include <set>

namespace {
using standin::Bytes;
std::string s(size_t i)
{
    return std::to_string(i);
}
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "", "0kw", "1kw", "10kw", "00000001kw"};
    return n;
}
uint64_t id_of(size_t i)
{
    static const uint64_t ids[] = {5, ~0UL, 1, 5}; // (0 would leave the mask bare)
    return ids[i % 4];
}
sse::crypto::Key<32> key(uint8_t b)
{
    std::array<uint8_t, 32> k;
    for (size_t i = 0; i < 32; i++)
        k[i] = (uint8_t)(b + 37 * i);
    standin::world().knowledge.secret(standin::bytes(k));
    return sse::crypto::Key<32>(k.data());
}

struct Observer
{
    struct Update
    {
        std::string kw;
        int         mask;
        bool        searched;
        size_t      number;
    };
    std::set<Bytes>     tokens, masks;
    std::vector<Update> updates;
    std::string         hist;

    static standin::Knowledge& k()
    {
        return standin::world().knowledge;
    }
    template<class C>
    void observe(const C& c)
    {
        k().observe(standin::bytes(c));
    }
    // token: where the entry goes; masked: what is stored; plain tells the
    // clear value of a candidate; before: number of values registered before
    void update(const std::string& kw, const Bytes& token, const Bytes& masked, const std::function<bool(const Bytes&)>& plain, const Bytes* clear)
    {
        size_t n   = updates.size();
        std::string u = "update " + s(n);
        int    tok = k().find_prefix((const uint8_t*)token.data(), token.size());
        MC_CHECK(tokens.insert(token).second, u + " has the token of an earlier update," + hist);
        MC_CHECK(tok >= 0, "the token of " + u + " is not pseudo-random," + hist);
        MC_CHECK(!k().known(tok), "the server can compute the token of " + u + " in advance," + hist);
        int   mask = -1;
        Bytes m(masked.size(), 0);
        if (clear) {
            for (size_t i = 0; i < m.size(); i++)
                m[i] = masked[i] ^ (*clear)[i];
            Bytes rev(m.rbegin(), m.rend()); // in any byte order
            for (int v = (int)k().size() - 1; v >= 0 && mask < 0; v--) {
                if (k().value(v).find(m) != Bytes::npos || k().value(v).find(rev) != Bytes::npos)
                    mask = v;
            }
        } else {
            for (int v = (int)k().size() - 1; v >= 0 && mask < 0; v--) {
                if (k().value(v).size() < m.size())
                    continue;
                for (size_t i = 0; i < m.size(); i++)
                    m[i] = masked[i] ^ k().value(v)[i];
                if (plain(m)) {
                    mask = v;
                    m    = k().value(v).substr(0, masked.size());
                }
            }
        }
        MC_CHECK(mask >= 0, "the value of " + u + " is not masked by a pseudo-random value," + hist);
        MC_CHECK(!k().known(mask), "the server can compute the mask of " + u + " in advance," + hist);
        MC_CHECK(masks.insert(m).second, u + " has the mask of an earlier update," + hist);
        updates.push_back({kw, mask, false, n});
        k().observe(token);
        k().observe(masked);
        hidden();
    }
    // the updates of keywords which were not searched since stay hidden
    void hidden()
    {
        for (auto& u : updates) {
            if (!u.searched)
                MC_CHECK(!k().known(u.mask), "the server can read update " + s(u.number) + " without a search," + hist);
            else
                MC_CHECK(k().known(u.mask), "internal: a search does not let the server read update " + s(u.number) + "," + hist);
        }
        mc::validated();
    }
    void searched(const std::string& kw)
    {
        for (auto& u : updates)
            u.searched = u.searched || u.kw == kw;
        hidden();
    }
};
// runs on the server
template<class F>
void on_server(F f)
{
    standin::world().observing = true;
    try {
        f();
    } catch (...) {
        standin::world().observing = false;
        throw;
    }
    standin::world().observing = false;
}
std::string dir(const char* n)
{
    return mc::scratch() + "/" + n;
}
void fresh()
{
    memdb::forget();
    standin::reset_world();
    standin::world().recording = true;
}

struct Sophos : Observer
{
    std::string                                sk, pk;
    std::unique_ptr<sse::sophos::SophosClient> client;
    std::unique_ptr<sse::sophos::SophosServer> server;
    static constexpr int                       kUpdates = 1;
    Sophos()
    {
        fresh();
        sse::crypto::TdpInverse t;
        sk = t.private_key();
        pk = t.public_key();
        k().observe(pk);
        restart();
        server = std::make_unique<sse::sophos::SophosServer>(dir("server"), pk);
    }
    void restart()
    {
        client.reset();
        client = std::make_unique<sse::sophos::SophosClient>(dir("client"), sk, key(1), key(2));
    }
    void update(int, const std::string& kw, uint64_t id)
    {
        auto  r = client->insertion_request(kw, id);
        Bytes clear(reinterpret_cast<const char*>(&id), 8);
        Observer::update(kw, standin::bytes(r.token), Bytes(reinterpret_cast<const char*>(&r.index), 8), nullptr, &clear);
        on_server([&] { server->insert(r); });
    }
    void search(const std::string& kw)
    {
        auto r = client->search_request(kw);
        observe(r.token);
        observe(r.derivation_key);
        on_server([&] { server->search(r); });
        searched(kw);
    }
};
struct Diana : Observer
{
    std::unique_ptr<sse::diana::DianaClient<uint64_t>> client;
    std::unique_ptr<sse::diana::DianaServer<uint64_t>> server;
    static constexpr int                               kUpdates = 2; // single, bulk
    Diana()
    {
        fresh();
        restart();
        server = std::make_unique<sse::diana::DianaServer<uint64_t>>(dir("server"));
    }
    void restart()
    {
        client.reset();
        client = std::make_unique<sse::diana::DianaClient<uint64_t>>(dir("client"), key(1), key(2));
    }
    void one(const std::string& kw, uint64_t id, const sse::diana::UpdateRequest<uint64_t>& r)
    {
        Bytes clear(reinterpret_cast<const char*>(&id), 8);
        Observer::update(kw, standin::bytes(r.token), Bytes(reinterpret_cast<const char*>(&r.index), 8), nullptr, &clear);
        on_server([&] { server->insert(r); });
    }
    void update(int how, const std::string& kw, uint64_t id)
    {
        if (how == 0) {
            one(kw, id, client->insertion_request(kw, id));
            return;
        }
        std::list<std::pair<std::string, uint64_t>> l = {{kw, id}, {names()[0], id ^ 0x1000}, {kw, id}};
        auto                                        r = client->bulk_insertion_request(l);
        auto                                        i = l.begin();
        for (auto& x : r) {
            one(i->first, i->second, x);
            ++i;
        }
    }
    void search(const std::string& kw)
    {
        auto r = client->search_request(kw);
        observe(r.kw_token);
        for (auto& e : r.constrained_rcprf.elements())
            observe(e.node);
        on_server([&] { server->search(r); });
        searched(kw);
    }
};
struct Janus : Observer
{
    std::unique_ptr<sse::janus::JanusClient> client;
    std::unique_ptr<sse::janus::JanusServer> server;
    static constexpr int                     kUpdates = 2; // insertion, deletion
    Janus()
    {
        fresh();
        restart();
        server = std::make_unique<sse::janus::JanusServer>(dir("s-add"), dir("s-del"), dir("s-cache"));
    }
    void restart()
    {
        client.reset();
        client = std::make_unique<sse::janus::JanusClient>(dir("c-search"), dir("c-add"), dir("c-del"), key(3));
    }
    template<class R>
    void one(const std::string& kw, const R& r)
    {
        // a ciphertext or key share starts with the name of its key
        auto plain = [](const Bytes& b) { return k().find_prefix((const uint8_t*)b.data(), 16) >= 0; };
        Observer::update(kw, standin::bytes(r.token), standin::bytes(r.index), plain, nullptr);
    }
    void update(int how, const std::string& kw, uint64_t id)
    {
        if (how == 0) {
            auto r = client->insertion_request(kw, id);
            one(kw, r);
            on_server([&] { server->insert(r); });
        } else {
            auto r = client->removal_request(kw, id);
            one(kw, r);
            on_server([&] { server->remove(r); });
        }
    }
    void observe_part(const sse::diana::SearchRequest& r)
    {
        observe(r.kw_token);
        for (auto& e : r.constrained_rcprf.elements())
            observe(e.node);
    }
    void search(const std::string& kw)
    {
        auto r = client->search_request(kw);
        observe(r.keyword_token);
        observe_part(r.insertion_search_request);
        observe_part(r.deletion_search_request);
        observe(r.first_key_share);
        on_server([&] { server->search(r); });
        searched(kw);
    }
};

template<class System>
void histories(size_t nkw, int depth)
{
    System sy;
    try {
        int n = (int)nkw, up = System::kUpdates * n;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(up + n + 1, "operation");
            if (op < up) {
                sy.hist += " update(" + s(op / n) + "," + s(op % n) + ")";
                sy.update(op / n, names()[op % n], id_of(sy.updates.size()));
            } else if (op < up + n) {
                sy.hist += " search(" + s(op - up) + ")";
                sy.search(names()[op - up]);
            } else {
                sy.hist += " restart";
                sy.restart();
            }
            mc::transitions();
        }
        // and one more update of each keyword
        for (size_t k = 0; k < nkw; k++)
            sy.update(0, names()[k], 7);
        std::string st;
        for (auto& u : sy.updates)
            st += u.kw + (u.searched ? "+" : "-") + ";";
        mc::state(st);
        mc::count("values", sy.k().size());
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
}
// n updates, a search, more updates
template<class System>
void long_list(size_t max)
{
    size_t n = mc::choose((int)max, "updates") + 1;
    System sy;
    sy.hist = " " + s(n) + " updates";
    try {
        for (size_t i = 0; i < n; i++)
            sy.update(0, "kw", i + 1);
        sy.update(0, "other", 1);
        sy.search("kw");
        sy.hist += " search";
        for (size_t i = 0; i < 4; i++)
            sy.update(0, "kw", i + 1);
        sy.search("kw");
        sy.hist += " search";
        sy.update(0, "kw", 1);
        sy.update(0, "other", 1);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions();
}
// one keyword searched m times between updates, others with confusable names
template<class System>
void many_searches(int max)
{
    int    m = mc::choose(max, "searches"), k = mc::choose((int)names().size() - 1, "other keyword") + 1;
    System sy;
    try {
        for (int i = 0; i < m; i++) {
            for (int how = 0; how < System::kUpdates; how++)
                sy.update(how, names()[0], i + 1);
            sy.search(names()[0]);
            if (i < 3) {
                sy.update(0, names()[k], i + 1);
                sy.search(names()[k]);
            }
            sy.hist = " " + s(i + 1) + " updates and searches";
        }
        sy.update(0, names()[0], 1);
        sy.update(0, names()[k], 2);
    } catch (const std::exception& e) {
        mc::violation(std::string("exception ") + e.what() + "," + sy.hist);
    }
    mc::transitions();
}

// what is sent for a keyword without updates is not what happens to be in memory
__attribute__((noinline)) void dirty(int b)
{
    volatile char a[16384];
    for (auto& c : a)
        c = (char)b;
}
__attribute__((noinline)) Bytes ask(sse::sophos::SophosClient& c)
{
    auto r = c.search_request("unknown");
    return standin::bytes(r.token) + standin::bytes(r.derivation_key) + s(r.add_count);
}
void unknown()
{
    Sophos sy;
    for (int i = 0; i < 3; i++)
        sy.update(0, "kw", i + 1);
    Bytes b[3];
    for (int i = 0; i < 3; i++) {
        dirty(0x11 * (i + 1));
        b[i] = ask(*sy.client);
    }
    MC_CHECK(b[0] == b[1] && b[1] == b[2], "the request for a keyword without updates depends on the contents of the stack");
    mc::transitions();
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    bool t   = mc::thorough();
    auto add = [&](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
    int sd = t ? 8 : 6, dd = t ? 6 : 4, jd = t ? 6 : 4;
    for (int d = 1; d <= sd; d++)
        add("Sophos, two keywords, " + s(d) + " operations", d > 2 ? 16 : 1, 2, [=] { histories<Sophos>(2, d); });
    for (int d = 1; d <= dd; d++)
        add("Diana, two keywords, " + s(d) + " operations", d > 2 ? 16 : 1, 2, [=] { histories<Diana>(2, d); });
    for (int d = 1; d <= jd; d++)
        add("Janus, two keywords, " + s(d) + " operations", d > 2 ? 16 : 1, 2, [=] { histories<Janus>(2, d); });
    add("Diana, one keyword", 16, 2, [=] { histories<Diana>(1, dd + 2); });
    add("Janus, one keyword", 16, 2, [=] { histories<Janus>(1, jd + 2); });
    add("Sophos, six keywords", 16, 2, [=] { histories<Sophos>(6, t ? 5 : 4); });
    add("Sophos, numbers of updates", 16, 1, [=] { long_list<Sophos>(t ? 300 : 80); });
    add("Diana, numbers of updates", 16, 1, [=] { long_list<Diana>(t ? 300 : 80); });
    add("Janus, numbers of updates", 16, 1, [=] { long_list<Janus>(t ? 300 : 60); });
    add("Sophos, numbers of searches", 16, 2, [=] { many_searches<Sophos>(t ? 60 : 34); });
    add("Diana, numbers of searches", 16, 2, [=] { many_searches<Diana>(t ? 60 : 34); });
    add("Janus, numbers of searches", 16, 2, [=] { many_searches<Janus>(t ? 60 : 34); });
    add("Sophos, unknown keyword", 1, 1, [] { unknown(); });
}
