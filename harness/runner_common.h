// The network programs of a scheme: client and server runners over an
// in-process transport.  The scheme is given by the macros
//   RUN_NS (sophos, diana), CLIENT, SERVER (runners), PROTO (service), KEYFILE
#pragma once
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

namespace {
unsigned g_cores = 2;
// opening this file for writing fails, or all writes to it (the name ends so)
std::string g_unwritable, g_full;
bool        ends(const std::string& p, const std::string& e)
{
    return !e.empty() && p.size() >= e.size() && p.compare(p.size() - e.size(), std::string::npos, e) == 0;
}
} // namespace
// the number of cores of the machine is a parameter
unsigned int std::thread::hardware_concurrency() noexcept
{
    return g_cores;
}
extern "C" FILE* fopen(const char* path, const char* mode)
{
    using F      = FILE* (*)(const char*, const char*);
    static F real = (F)dlsym(RTLD_NEXT, "fopen");
    if (mode[0] == 'w' && ends(path, g_unwritable)) {
        errno = EACCES;
        return nullptr;
    }
    if (mode[0] == 'w' && ends(path, g_full)) {
        fclose(real(path, mode));
        return real("/dev/full", mode);
    }
    return real(path, mode);
}

namespace {
using namespace sse::RUN_NS;
using Ids = std::vector<uint64_t>;
namespace gs = grpc::standin;

std::string s(size_t i)
{
    return std::to_string(i);
}
std::string show(const Ids& v)
{
    std::string o = "[";
    for (auto x : v)
        o += " " + s(x);
    return o + " ]";
}
const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "", "kw1", "k"};
    return n;
}
void wipe(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st) != 0)
        return;
    if (S_ISDIR(st.st_mode)) {
        DIR* d = opendir(p.c_str());
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..")
                wipe(p + "/" + n);
        }
        closedir(d);
        rmdir(p.c_str());
    } else {
        unlink(p.c_str());
    }
}
std::string slurp(const std::string& p)
{
    std::ifstream     f(p);
    std::stringstream b;
    b << f.rdbuf();
    return b.str();
}
// everything stored under a path
std::string snapshot(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st) != 0)
        return "-";
    if (!S_ISDIR(st.st_mode))
        return "f" + slurp(p);
    std::string           o = "d";
    std::set<std::string> l;
    DIR*                  d = opendir(p.c_str());
    while (dirent* e = readdir(d))
        l.insert(e->d_name);
    closedir(d);
    for (auto& n : l) {
        if (n != "." && n != "..")
            o += "(" + n + ":" + snapshot(p + "/" + n) + ")";
    }
    auto it = memdb::disk().find(p);
    if (it != memdb::disk().end()) {
        for (auto& kv : it->second)
            o += "{" + kv.first + "=" + kv.second + "}";
    }
    return o;
}
constexpr const char* kAddress = "127.0.0.1:4343";
std::shared_ptr<grpc::Channel> channel()
{
    return grpc::CreateChannel(kAddress, grpc::InsecureChannelCredentials());
}
std::string sdir()
{
    return mc::scratch() + "/server.db";
}
std::string cdir(size_t i = 0)
{
    return mc::scratch() + "/client" + (i ? s(i) : "") + ".db";
}
void clean()
{
    memdb::g_fault = nullptr;
    memdb::forget();
    wipe(sdir());
    for (size_t i = 0; i < 3; i++)
        wipe(cdir(i));
    standin::reset_world();
    gs::net().fault  = nullptr;
    gs::net().broken = nullptr;
    gs::net().eager  = true;
    gs::net().servers.clear();
    gs::net().exception.clear();
    gs::net().misuse.clear();
    gs::net().last = grpc::Status();
    g_unwritable.clear();
    g_full.clear();
    g_cores = 2;
}
grpc::StatusCode last()
{
    return gs::net().last.error_code();
}

struct Programs
{
    std::unique_ptr<SERVER>    server;
    std::unique_ptr<CLIENT>    client;
    std::map<std::string, Ids> model;
    std::string                hist;
    bool                       session  = false;
    size_t                     inserted = 0;
    bool                       async    = true;

    void start_server(bool builder = false)
    {
        server.reset();
        if (builder) {
            grpc::ServerBuilder b;
            b.AddListeningPort(kAddress, grpc::InsecureServerCredentials());
            server.reset(new SERVER(b, sdir()));
        } else {
            server.reset(new SERVER(kAddress, sdir()));
        }
        server->set_async_search(async);
    }
    void start_client()
    {
        client.reset();
        client.reset(new CLIENT(channel(), cdir()));
    }
    uint64_t next_id()
    {
        static const uint64_t ids[] = {7, ~0UL, 0, 0x0102030405060708ull, 7};
        uint64_t              id    = ids[inserted % 5] + (inserted >= 5 ? inserted : 0);
        inserted++;
        return id;
    }
    Ids run_search(const std::string& kw)
    {
        Ids                 r, c;
        std::list<uint64_t> l;
        if (inserted % 2) {
            l = client->search(kw);
        } else {
            l = client->search(kw, [&](uint64_t i) { c.push_back(i); });
            MC_CHECK(c == Ids(l.begin(), l.end()), "the callback was called for other results," + hist);
        }
        return Ids(l.begin(), l.end());
    }
    void search(const std::string& kw, bool as)
    {
        server->set_async_search(async = as);
        gs::net().exception.clear();
        Ids r = run_search(kw);
        Ids e = model.count(kw) ? model[kw] : Ids();
        std::sort(r.begin(), r.end());
        std::sort(e.begin(), e.end());
        MC_CHECK(r == e,
                 std::string(as ? "asynchronous" : "synchronous") + " search of '" + kw + "' yields " + show(r)
                     + " instead of " + show(e) + "," + hist);
        MC_CHECK(gs::net().exception.empty(), "the server failed: " + gs::net().exception + "," + hist);
        mc::validated();
    }
    void search_all(size_t nkw)
    {
        for (bool as : {true, false}) {
            for (size_t k = 0; k < nkw; k++)
                search(names()[k], as);
            search("never", as);
        }
    }
    void insert(const std::string& kw)
    {
        uint64_t id = next_id();
        client->insert(kw, id);
        model[kw].push_back(id);
    }
    void insert_in_session(const std::string& kw)
    {
        uint64_t id = next_id();
        try {
            client->insert_in_session(kw, id);
            MC_CHECK(session, "an insertion in a session without one is accepted," + hist);
            model[kw].push_back(id);
        } catch (const std::runtime_error& e) {
            MC_CHECK(!session, std::string("an insertion in the session is refused: ") + e.what() + "," + hist);
        }
    }
#ifdef HAS_LISTS
    // some lists of updates, one of each keyword or not
    void insert_list(size_t nkw)
    {
        std::list<std::pair<std::string, uint64_t>> l;
        for (size_t i = 0; i < 1 + inserted % 4; i++)
            l.emplace_back(names()[i % 3 == 2 ? 0 : i % nkw], 0);
        for (auto& u : l)
            u.second = next_id();
        try {
            client->insert_in_session(l);
            MC_CHECK(session, "a list of insertions in a session without one is accepted," + hist);
            for (auto& u : l)
                model[u.first].push_back(u.second);
        } catch (const std::runtime_error& e) {
            MC_CHECK(!session, std::string("a list of insertions in the session is refused: ") + e.what() + "," + hist);
        }
    }
#endif
    void load()
    {
        std::string p = mc::scratch() + "/index";
        {
            std::ofstream f(p);
            f << "kw 5 6\n" << names()[2] << " 4294967295\nkw 9\n";
        }
        MC_CHECK(client->load_inverted_index(p), "loading failed," + hist);
        for (uint64_t i : {5, 6, 9})
            model["kw"].push_back(i);
        model[names()[2]].push_back(4294967295);
        session = false; // (it ends the session it uses)
    }
    // a file which cannot be read to its end; a session it uses stays open, one
    // it started does not
    void load_broken()
    {
        std::string p = mc::scratch() + "/index";
        {
            std::ofstream f(p);
            f << "other 5 6\n!\nother 9\n";
        }
        MC_CHECK(!client->load_inverted_index(p), "loading half a file succeeds," + hist);
    }
    void second_setup(bool fresh)
    {
        std::string before = snapshot(sdir());
        bool        ok     = true;
        wipe(cdir(1));
        try {
            CLIENT other(channel(), cdir(1));
        } catch (const std::runtime_error&) {
            ok = false;
        }
        MC_CHECK(!ok, "a second set-up succeeds," + hist);
        MC_CHECK(last() == grpc::FAILED_PRECONDITION, "status " + s(last()) + " for a second set-up," + hist);
        MC_CHECK(snapshot(sdir()) == before, "a refused set-up changed the database," + hist);
        if (fresh)
            MC_CHECK(snapshot(cdir(1)) == "-", "the refused client keeps its directory and would work with it," + hist);
    }
};

template<class F>
void guarded(Programs& p, F f)
{
    try {
        f();
    } catch (const std::exception& e) {
        if (std::uncaught_exceptions())
            throw;
        mc::violation(std::string("exception ") + e.what() + "," + p.hist);
    }
    MC_CHECK(gs::net().misuse.empty(), gs::net().misuse + "," + p.hist);
}

// keys and tokens in which a byte is found that a text does not have, or ends with
void bytes_of_keys()
{
    static const int bytes[] = {0, '\n', ' ', '\t', '\r', 0x1A, '"', 0xFF};
    clean();
    Programs p;
    int      b = bytes[mc::choose(8, "byte")];
    p.hist     = " byte " + s(b);
    standin::world().random_byte = b;
    guarded(p, [&] {
        p.start_server();
        p.start_client();
        for (int i = 0; i < 3; i++) {
            p.insert(names()[0]);
            p.insert(names()[1]);
            int again = mc::choose(4, "restart");
            if (again & 1) {
                p.hist += " restart-client";
                p.start_client();
            }
            if (again & 2) {
                p.hist += " restart-server";
                p.start_server();
            }
            p.search_all(2);
            mc::transitions();
        }
    });
}

#ifdef HAS_LISTS
constexpr int kLists = 1;
#else
constexpr int kLists = 0;
#endif
void histories(size_t nkw, int depth)
{
    clean();
    Programs p;
    guarded(p, [&] {
        p.start_server();
        p.start_client();
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(2 * (int)nkw + 8 + kLists, "operation");
            if (op < (int)nkw) {
                p.hist += " insert(" + s(op) + ")";
                p.insert(names()[op]);
            } else if (op < 2 * (int)nkw) {
                p.hist += " insert_in_session(" + s(op - nkw) + ")";
                p.insert_in_session(names()[op - nkw]);
            } else {
                switch (op - 2 * (int)nkw) {
                case 0:
                    p.hist += " start-session";
                    p.client->start_update_session();
                    p.session = true;
                    break;
                case 1:
                    p.hist += " end-session";
                    p.client->end_update_session();
                    p.session = false;
                    break;
                case 2:
                    p.hist += " restart-client";
                    p.session = false;
                    p.start_client();
                    break;
                case 3:
                    p.hist += " restart-server";
                    if (p.session)
                        p.client->end_update_session();
                    p.session = false;
                    if (i % 2)
                        p.server->shutdown();
                    p.start_server(i % 2);
                    break;
                case 4:
                    p.hist += " load";
                    p.load();
                    break;
                case 5:
                    p.hist += " setup-again";
                    p.second_setup(true);
                    break;
                case 6:
                    p.hist += " search";
                    p.search(names()[0], i % 2);
                    break;
                case 7:
                    p.hist += " load-broken";
                    p.load_broken();
                    break;
                case 8:
#ifdef HAS_LISTS
                    p.hist += " insert_in_session(list)";
                    p.insert_list(nkw);
#endif
                    break;
                }
            }
            mc::transitions();
        }
        std::string st = p.session ? "s" : "";
        for (auto& kv : p.model)
            st += kv.first + ":" + show(kv.second) + ";";
        mc::state(st);
        p.search_all(3);
        if (p.session)
            p.client->end_update_session();
        p.start_server();
        p.start_client();
        p.search_all(3);
    });
}

// numbers of results around the thresholds, numbers of cores
void sizes()
{
    clean();
    static const unsigned cores[] = {1, 2, 3, 8, 16};
    unsigned              c       = cores[mc::choose(5, "cores")];
    static const size_t   sz[]    = {1, 2, 3, 7, 8, 9, 38, 39, 40, 41, 127, 128, 255, 256, 257, 700};
    size_t                n       = sz[mc::choose(16, "results")];
    int                   how     = mc::choose(3, "how");
    Programs              p;
    guarded(p, [&] {
        g_cores = c;
        p.hist  = " " + s(n) + " results," + s(c) + " cores, " + s(how);
        p.start_server();
        p.start_client();
        if (how == 2) {
            std::string f = mc::scratch() + "/index";
            {
                std::ofstream o(f);
                o << "kw";
                for (size_t i = 0; i < n; i++) {
                    p.model["kw"].push_back(i);
                    o << " " << i;
                }
                o << "\n";
                for (size_t i = 0; i < 20; i++) {
                    o << "k" << i << " " << i << "\n";
                    p.model["k" + s(i)].push_back(i);
                }
            }
            MC_CHECK(p.client->load_inverted_index(f), "loading failed," + p.hist);
            for (size_t i = 0; i < 20; i++)
                p.search("k" + s(i), i % 2);
        } else {
            if (how == 1)
                p.client->start_update_session();
            for (size_t i = 0; i < n; i++)
                p.insert("kw");
            if (how == 1)
                p.client->end_update_session();
        }
        p.insert("");
        p.search_all(3);
        mc::transitions(n);
    });
}

// calls which fail: the request is lost, the reply is lost, the stream breaks
void faults(int depth)
{
    clean();
    Programs p;
    guarded(p, [&] {
        p.start_server();
        p.start_client();
        bool stored      = true; // the update under way reaches the server
        bool lost        = false;
        bool down        = false; // the stream of the session is broken
        gs::net().fault  = [&](const char* m) -> int {
            int f = mc::choose(3, m);
            if (f) {
                p.hist += f == 1 ? "(request lost)" : "(reply lost)";
                lost = true;
            }
            if (f == 1) {
                stored = false;
                if (std::string(m) == "bulk_insert")
                    down = true;
            }
            return f;
        };
        gs::net().broken = [&](const char* m) {
            bool b = mc::flip("broken stream");
            if (b) {
                p.hist += "(broken)";
                lost   = true;
                if (std::string(m) == "bulk_insert")
                    down = true;
            }
            return b;
        };
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(5, "operation");
            stored = true;
            lost   = false;
            if (op < 2) {
                p.hist += " insert(" + s(op) + ")";
                uint64_t id = p.next_id();
                p.client->insert(names()[op], id);
                if (p.session ? !down : stored)
                    p.model[names()[op]].push_back(id);
            } else if (op == 2) {
                p.hist += " start-session";
                if (!p.session) {
                    down = false;
                    p.client->start_update_session();
                    p.session = true;
                }
            } else if (op == 3) {
                p.hist += " end-session";
                p.client->end_update_session();
                p.session = false;
            } else {
                p.hist += " search";
                p.server->set_async_search(i % 2);
                gs::net().exception.clear();
                Ids r = p.run_search("kw");
                Ids e = p.model["kw"];
                std::sort(r.begin(), r.end());
                std::sort(e.begin(), e.end());
                MC_CHECK(gs::net().exception.empty(), "the server failed: " + gs::net().exception + "," + p.hist);
                if (lost) {
                    MC_CHECK(std::includes(e.begin(), e.end(), r.begin(), r.end()),
                             "a failed search yields " + show(r) + " out of " + show(e) + "," + p.hist);
                } else {
                    MC_CHECK(r == e, "a search yields " + show(r) + " instead of " + show(e) + "," + p.hist);
                }
            }
            mc::transitions();
        }
        gs::net().fault  = nullptr;
        gs::net().broken = nullptr;
        mc::state(p.hist);
        p.search_all(2);
        if (p.session)
            p.client->end_update_session();
        p.insert(names()[0]);
        p.start_server();
        p.start_client();
        p.search_all(2);
    });
}

using Stub = PROTO::Stub;
struct Raw
{
    std::unique_ptr<Stub>   stub = PROTO::NewStub(channel());
    grpc::ClientContext     ctx;
    google::protobuf::Empty e;
    grpc::Status            setup(const std::string& k)
    {
        SetupMessage m;
        set_key(m, k);
        return stub->setup(&ctx, m, &e);
    }
    grpc::Status insert(const std::string& token, uint64_t i)
    {
        UpdateRequestMessage m;
        m.set_update_token(token);
        m.set_index(i);
        return stub->insert(&ctx, m, &e);
    }
    grpc::Status bulk(const std::vector<std::string>& tokens)
    {
        auto w = stub->bulk_insert(&ctx, &e);
        for (auto& t : tokens) {
            UpdateRequestMessage m;
            m.set_update_token(t);
            m.set_index(1);
            w->Write(m);
        }
        w->WritesDone();
        return w->Finish();
    }
    grpc::Status search(const SearchRequestMessage& m, size_t* n = nullptr)
    {
        auto        r = stub->search(&ctx, m);
        SearchReply rep;
        size_t      k = 0;
        while (r->Read(&rep))
            k++;
        if (n)
            *n = k;
        return r->Finish();
    }
};

// a server before its set-up
void before_setup()
{
    clean();
    Programs p;
    guarded(p, [&] {
        p.async = mc::flip("async");
        p.start_server(mc::flip("builder"));
        Raw r;
        for (int i = 0; i < 2; i++) {
            int op = mc::choose(4, "operation");
            p.hist += " " + s(op);
            grpc::Status st;
            if (op == 0)
                st = r.insert(std::string(kUpdateTokenSize, 'a'), 1);
            else if (op == 1)
                st = r.bulk({});
            else if (op == 2)
                st = r.bulk({std::string(kUpdateTokenSize, 'a'), std::string(kUpdateTokenSize, 'b')});
            else
                st = r.search(raw_search(3));
            MC_CHECK(st.error_code() == grpc::FAILED_PRECONDITION,
                     "status " + s(st.error_code()) + " " + gs::net().exception + " before the set-up," + p.hist);
            MC_CHECK(snapshot(sdir()) == "-", "a database without a set-up," + p.hist);
            mc::transitions();
        }
        p.start_client();
        p.insert("kw");
        p.insert("kw");
        p.search_all(3);
    });
}

// messages of the wrong sizes are refused and change nothing
void malformed()
{
    clean();
    Programs p;
    guarded(p, [&] {
        p.async = mc::flip("async");
        p.start_server();
        p.start_client();
        p.insert("kw");
        p.insert("kw");
        std::string before = snapshot(sdir());
        Raw         r;
        int         op = mc::choose(4, "message");
        // lengths around the one which is right
        static const int lens[] = {0, 1, -1, +1, +100, +5000};
        int              l      = lens[mc::choose(6, "length")];
        auto             bytes  = [&](size_t right) {
            return std::string(l == 0 || l == 1 ? l : right + l, 'x');
        };
        p.hist = " malformed message " + s(op) + " " + std::to_string(l);
        grpc::Status st;
        bool         changes = false;
        switch (op) {
        case 0:
            st = r.insert(bytes(kUpdateTokenSize), 1);
            break;
        case 1:
            st = r.bulk({bytes(kUpdateTokenSize), std::string(kUpdateTokenSize, 'b')});
            changes = true; // (what was sent after it may count)
            break;
        case 2:
            st = r.search(raw_search(2, bytes));
            break;
        case 3:
            st = r.search(raw_search(2, nullptr, bytes));
            break;
        }
        MC_CHECK(!st.ok(), "accepted," + p.hist);
        MC_CHECK(changes || snapshot(sdir()) == before, "the database was changed," + p.hist);
        mc::transitions();
        p.search_all(2);
        p.insert("kw");
        p.start_server();
        p.search_all(2);
    });
}

// a set-up which fails: nothing of it remains, on neither side
void failed_setup()
{
    clean();
    Programs p;
    guarded(p, [&] {
        int how = mc::choose(9, "failure");
        p.hist  = " set-up failure " + s(how);
        int                            n = 0;
        std::string                    parent;
        switch (how) {
        case 0: // no server
            break;
        case 1:
            p.start_server();
            g_unwritable = std::string("server.db/") + SERVER_KEYFILE;
            break;
        case 2: { // the server's store cannot be opened
            p.start_server();
            memdb::g_open_fault = [&](const std::string& path) { return path.compare(0, sdir().size(), sdir()) == 0; };
            break;
        }
        case 3: // the request is lost
            p.start_server();
            gs::net().fault = [](const char*) { return 1; };
            break;
        case 4: // somebody else made the directory
            p.start_server();
            mkdir(sdir().c_str(), 0700);
            break;
        case 5: { // an unusable key
            p.start_server();
            Raw r;
            auto st = r.setup(mc::flip("empty") ? "" : std::string(KEY_SIZE + 1, 'x'));
            MC_CHECK(!st.ok(), "a set-up with an unusable key succeeds," + p.hist);
            break;
        }
        case 6: // the client cannot write its keys
            p.start_server();
            g_unwritable = std::string("client.db/") + CLIENT_KEYFILES[mc::choose(3, "file")];
            break;
        case 7: // the disks are full
            p.start_server();
            g_full = std::string("client.db/") + CLIENT_KEYFILES[mc::choose(3, "file")];
            break;
        case 8:
            p.start_server();
            g_full = std::string("server.db/") + SERVER_KEYFILE;
            break;
        }
        if (how != 5) {
            bool ok = true;
            try {
                p.start_client();
            } catch (const std::exception&) {
                ok = false;
            }
            MC_CHECK(!ok, "the client starts," + p.hist);
        }
        g_unwritable.clear();
        g_full.clear();
        gs::net().fault     = nullptr;
        memdb::g_open_fault = nullptr;
        MC_CHECK(snapshot(cdir()) == "-", "the client keeps a directory it would start from," + p.hist);
        if (how == 4) {
            MC_CHECK(snapshot(sdir()) == "d", "the directory was changed," + p.hist);
            wipe(sdir());
        } else {
            MC_CHECK(snapshot(sdir()) == "-", "the server keeps a directory it cannot start from," + p.hist);
        }
        if (how == 0 || mc::flip("restart"))
            p.start_server();
        // nothing was set up
        {
            Raw r;
            MC_CHECK(r.insert(std::string(kUpdateTokenSize, 'a'), 1).error_code() == grpc::FAILED_PRECONDITION,
                     "an update is accepted after a failed set-up," + p.hist);
        }
        // and now it works
        p.start_client();
        p.insert("kw");
        p.insert("kw");
        p.search_all(2);
        p.start_server();
        p.start_client();
        p.search_all(2);
        mc::transitions();
        (void)n;
    });
}

// directories which are not complete: refused, never taken for a new database
void incomplete()
{
    clean();
    Programs p;
    guarded(p, [&] {
        p.start_server();
        p.start_client();
        p.insert("kw");
        p.client.reset();
        p.server.reset();
        bool                     client = mc::flip("client");
        std::vector<std::string> files;
        std::string              dir;
        if (client) {
            dir   = cdir();
            files = {CLIENT_KEYFILES[0], CLIENT_KEYFILES[1], CLIENT_KEYFILES[2], "counters.dat"};
        } else {
            dir   = sdir();
            files = {SERVER_KEYFILE, "pairs.dat"};
        }
        std::string f    = dir + "/" + files[mc::choose(files.size(), "file")];
        int         what = mc::choose(5, "what");
        p.hist           = " " + f.substr(dir.size()) + " " + s(what);
        bool is_dir      = sse::utility::is_directory(f);
        auto content     = is_dir ? "" : slurp(f);
        auto db          = memdb::disk()[f];
        wipe(f);
        bool refused = true;
        switch (what) {
        case 0: // missing
            break;
        case 1: // the other kind
            if (is_dir)
                std::ofstream(f) << "x";
            else
                mkdir(f.c_str(), 0700);
            break;
        case 2: // the whole directory replaced by a file
            wipe(dir);
            std::ofstream(dir) << "x";
            break;
        case 3: // a torn key
            if (is_dir)
                mc::prune();
            std::ofstream(f) << content.substr(0, mc::flip("empty") ? 0 : content.size() - 1);
            break;
        case 4: // put back
            if (is_dir)
                mkdir(f.c_str(), 0700);
            else
                std::ofstream(f) << content;
            refused = false;
            break;
        }
        std::string before = snapshot(dir);
        bool        ok     = true;
        try {
            if (client) {
                p.start_server();
                p.start_client();
            } else {
                p.start_server();
            }
        } catch (const std::exception&) {
            ok = false;
        }
        MC_CHECK(ok != refused, std::string(ok ? "started from" : "refused") + " an altered directory," + p.hist);
        if (refused) {
            MC_CHECK(snapshot(dir) == before, "the refused directory was changed," + p.hist);
        } else {
            if (!client)
                p.start_client();
            p.search_all(2);
        }
        mc::transitions();
    });
}

// ---- schedules
// calls from two threads, or the threads of one call
struct Started
{
    Programs p;
    Started(size_t present, bool async, unsigned cores)
    {
        mc::Unmanaged u;
        clean();
        g_cores = cores;
        p.async = async;
        p.start_server();
        p.start_client();
        for (size_t i = 0; i < present; i++)
            add("kw", 100 + i);
        gs::net().eager = false;
    }
    void add(const std::string& kw, uint64_t id)
    {
        p.client->insert(kw, id);
        p.model[kw].push_back(id);
    }
    // everything is there, at the end
    void finish(const std::string& o = "")
    {
        mc::outcome(o);
        mc::Unmanaged u;
        MC_CHECK(gs::net().exception.empty(), "the server failed: " + gs::net().exception);
        p.search("kw", false);
        p.search("k", false);
        p.start_server();
        p.start_client();
        p.search("kw", true);
        p.client.reset();
        p.server.reset();
    }
};
std::string show(std::list<uint64_t> l)
{
    return show(Ids(l.begin(), l.end()));
}
void one_search(size_t n, bool async, unsigned cores)
{
    Started             st(n, async, cores);
    std::list<uint64_t> l = st.p.client->search("kw");
    Ids                 r(l.begin(), l.end());
    std::sort(r.begin(), r.end());
    MC_CHECK(r == st.p.model["kw"], "a search yields " + show(r) + " instead of " + show(st.p.model["kw"]));
    st.finish(show(l));
}
// what: i insert, s insertion in a session, b a list in the session
void two_updates(char what, bool same)
{
    Started st(1, true, 2);
    auto&   c = *st.p.client;
    if (what != 'i')
        c.start_update_session();
    auto job = [&](const std::string& kw, uint64_t id) {
        if (what == 'i')
            c.insert(kw, id);
#ifdef HAS_LISTS
        else if (what == 'b')
            c.insert_in_session(std::list<std::pair<std::string, uint64_t>>{{kw, id}});
#endif
        else
            c.insert_in_session(kw, id);
    };
    std::string other = same ? "kw" : "k";
    std::thread t([&] { job("kw", 1); });
    job(other, 2);
    t.join();
    if (what != 'i')
        c.end_update_session();
    st.p.model["kw"].push_back(1);
    st.p.model[other].push_back(2);
    st.finish();
}
void update_and_search(char what, bool async)
{
    Started st(1, async, 2);
    auto&   c = *st.p.client;
    if (what != 'i')
        c.start_update_session();
    std::thread t([&] {
        if (what == 'i')
            c.insert("kw", 1);
        else
            c.insert_in_session("kw", 1);
    });
    std::list<uint64_t> l = c.search("kw");
    t.join();
    if (what != 'i')
        c.end_update_session();
    st.p.model["kw"].push_back(1);
    Ids r(l.begin(), l.end());
    std::sort(r.begin(), r.end());
    MC_CHECK(r == Ids({100}) || r == Ids({1, 100}), "a search during an update yields " + show(r));
    st.finish(show(l));
}
void loading(const std::string& text, std::map<std::string, Ids> what)
{
    Started     st(0, true, 2);
    std::string f = mc::scratch() + "/index";
    {
        mc::Unmanaged u;
        std::ofstream o(f);
        o << text;
    }
    MC_CHECK(st.p.client->load_inverted_index(f), "loading failed");
    st.p.model = what;
    st.finish();
}
// the server already listens when the program chooses the kind of search
void search_and_option(bool from)
{
    Started             st(2, from, 2);
    std::thread         t([&] { st.p.server->set_async_search(st.p.async = !from); });
    std::list<uint64_t> l = st.p.client->search("kw");
    t.join();
    Ids r(l.begin(), l.end());
    std::sort(r.begin(), r.end());
    MC_CHECK(r == st.p.model["kw"], "a search yields " + show(r) + " instead of " + show(st.p.model["kw"]));
    st.finish(show(l));
}
// two clients set the server up; an operation arrives meanwhile
void two_setups(int other)
{
    {
        mc::Unmanaged u;
        clean();
    }
    gs::net().eager = false;
    Programs p;
    {
        mc::Unmanaged u;
        p.start_server();
    }
    std::unique_ptr<CLIENT> a, b;
    grpc::StatusCode        code = grpc::FAILED_PRECONDITION;
    auto                    make = [](std::unique_ptr<CLIENT>& c, size_t i) {
        try {
            c.reset(new CLIENT(channel(), cdir(i)));
        } catch (const std::runtime_error&) {
        }
    };
    std::thread t([&] {
        if (other == 0) {
            make(b, 1);
        } else {
            Raw r;
            if (other == 1)
                code = r.search(raw_search(0)).error_code();
            else if (other == 2)
                code = r.insert(std::string(kUpdateTokenSize, 'a'), 1).error_code();
            else
                code = r.bulk({std::string(kUpdateTokenSize, 'a')}).error_code();
        }
    });
    make(a, 0);
    t.join();
    mc::Unmanaged u;
    MC_CHECK((a != nullptr) + (b != nullptr) == 1, s((a != nullptr) + (b != nullptr)) + " clients set the server up");
    MC_CHECK(code == grpc::FAILED_PRECONDITION || code == grpc::OK || (other == 1 && code == grpc::UNKNOWN),
             "status " + s(code) + " during a set-up");
    mc::outcome(s(a != nullptr) + s(code));
    p.client = std::move(a ? a : b);
    p.insert("kw");
    p.search("kw", true);
    p.client.reset();
    p.server.reset();
}
#ifdef RUN_SCHED
void register_common()
{
    sse::logger::logger()->debug("started");
    // what initialises itself at its first use does it now
    for (int i = 0; i < 4; i++)
        two_setups(i);
    one_search(2, true, 2);
    one_search(2, false, 2);
    two_updates('s', true);
    auto add = [](const std::string& n, int pre, int deep, std::function<void()> f) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pre;
        c.shards      = 16;
        c.shard_depth = n.compare(0, 7, "loading") == 0 ? 14 : 5;
        c.deep        = deep - pre;
        mc::add(n, c, f);
    };
    for (size_t n : {2, 3})
        add("asynchronous search, " + s(n) + " results", n == 2 ? 2 : 1, 2, [=] { one_search(n, true, 2); });
    add("synchronous search, 2 results", 0, 1, [] { one_search(2, false, 2); });
    add("two insertions", 2, 3, [] { two_updates('i', false); });
    add("two insertions, same keyword", 2, 3, [] { two_updates('i', true); });
    add("two insertions in a session", 1, 2, [] { two_updates('s', false); });
    add("two insertions in a session, same keyword", 1, 2, [] { two_updates('s', true); });
#ifdef HAS_LISTS
    add("two lists in a session", 1, 2, [] { two_updates('b', false); });
#endif
    add("insertion and search", 1, 2, [] { update_and_search('i', true); });
    add("insertion in a session and search", 1, 2, [] { update_and_search('s', true); });
    add("loading two keywords", 0, 1, [] { loading("kw 1 2\nk 3\n", {{"kw", {1, 2}}, {"k", {3}}}); });
    add("loading a keyword twice", 1, 2, [] { loading("kw 1\nkw 2\n", {{"kw", {1, 2}}}); });
    add("search while it is made synchronous", 0, 1, [] { search_and_option(true); });
    add("search while it is made asynchronous", 0, 1, [] { search_and_option(false); });
    add("two set-ups", 1, 2, [] { two_setups(0); });
    add("a search during the set-up", 2, 3, [] { two_setups(1); });
    add("an insertion during the set-up", 2, 3, [] { two_setups(2); });
    add("a session during the set-up", 1, 2, [] { two_setups(3); });
}
#else
void register_common()
{
    bool t   = mc::thorough();
    auto add = [&](const std::string& n, int shards, int sd, std::function<void()> f) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = sd;
        mc::add(n, c, f);
    };
#ifdef RUN_SHALLOW
    int d1 = t ? 4 : 2, d2 = t ? 3 : 2, df = t ? 3 : 2;
#else
    int d1 = t ? 6 : 4, d2 = t ? 5 : 4, df = t ? 6 : 4;
#endif
    for (int d = 0; d <= d1; d++)
        add("one keyword, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 2 : 1, [=] { histories(1, d); });
    for (int d = 1; d <= d2; d++)
        add("two keywords, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 2 : 1, [=] { histories(2, d); });
    for (int d = 1; d <= df; d++)
        add("failing calls, " + s(d) + " operations", d >= 3 ? 16 : 1, d >= 3 ? 2 : 1, [=] { faults(d); });
    add("numbers of results and cores", 40, 3, [] { sizes(); });
    add("bytes of the keys", 8, 1, [] { bytes_of_keys(); });
    add("before the set-up", 4, 2, [] { before_setup(); });
    add("malformed messages", 4, 2, [] { malformed(); });
    add("failed set-ups", 1, 1, [] { failed_setup(); });
    add("incomplete directories", 1, 1, [] { incomplete(); });
}
#endif
} // namespace
