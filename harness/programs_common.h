// The command-line programs of a scheme (src/), run within this process.  The
// scheme is given by CLIENT_MAIN, SERVER_MAIN, DEFAULT_CLIENT, QUIET (an option
// which hides the results)
#pragma once
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/utils/db_generator.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <csignal>
#include <dirent.h>
#include <fstream>
#include <getopt.h>
#include <iostream>
#include <map>
#include <set>
#include <spdlog/async.h>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

int CLIENT_MAIN(int, char**);
int SERVER_MAIN(int, char**);

namespace {
namespace gs = grpc::standin;
using Ids    = std::vector<uint64_t>;
std::string s(uint64_t x)
{
    return std::to_string(x);
}
unsigned g_threads = 2; // of the generator
uint64_t g_first   = 0;
} // namespace
unsigned int std::thread::hardware_concurrency() noexcept
{
    return 2;
}
// instead of the random generator (P30): numbered documents from several threads
namespace sse {
namespace sophos {
void gen_db(size_t n, const std::function<void(const std::string&, size_t)>& callback)
{
    std::vector<std::thread> t;
    for (unsigned k = 0; k < g_threads; k++)
        t.emplace_back([=, &callback] {
            for (size_t i = k; i < n; i += g_threads) {
                callback("gen", g_first + i);
                if (i % 7 == 0)
                    callback("seven", g_first + i);
            }
        });
    for (auto& x : t)
        x.join();
}
} // namespace sophos
} // namespace sse

namespace {
void wipe(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st) != 0)
        return;
    if (S_ISDIR(st.st_mode)) {
        DIR* d = opendir(p.c_str());
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..")
                wipe(p + "/" + n);
        }
        closedir(d);
        rmdir(p.c_str());
    } else {
        unlink(p.c_str());
    }
}
std::string at(const std::string& n)
{
    return mc::scratch() + "/" + n;
}

struct Run
{
    int         code   = 0; // what main returned
    bool        failed = false; // an exception left it
    std::string out;
};
// the arguments of a call, as main() receives them
struct Args
{
    std::vector<std::vector<char>> text;
    std::vector<char*>             ptr;
    explicit Args(std::vector<std::string> a)
    {
        a.insert(a.begin(), "program");
        for (auto& x : a) {
            text.emplace_back(x.begin(), x.end());
            text.back().push_back(0);
        }
        for (auto& x : text)
            ptr.push_back(x.data());
        ptr.push_back(nullptr);
        optind = 0;
    }
    int n() const
    {
        return ptr.size() - 1;
    }
};

// the server, which has threads and handlers of its own, writes elsewhere
struct MyOutput : std::streambuf
{
    std::string     out;
    std::thread::id me = std::this_thread::get_id();
    int             overflow(int c) override
    {
        if (c != EOF && std::this_thread::get_id() == me && !gs::in_handler)
            out.push_back(c);
        return 0;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (std::this_thread::get_id() == me && !gs::in_handler)
            out.append(p, n);
        return n;
    }
};

struct World
{
    std::map<std::string, Ids> model;
    std::string                hist;
    std::thread                server;
    bool                       up = false, owned = false; // by the client in at("client")
    int                        server_code = -1;
    std::map<std::string, bool> ended;

    ~World()
    {
        // (an execution which is not completed)
        if (!server.joinable())
            return;
        {
            std::lock_guard<std::mutex> g(gs::net().mtx);
            gs::net().servers.clear();
        }
        gs::net().stopped.notify_all();
        server.join();
    }
    size_t listening()
    {
        std::lock_guard<std::mutex> g(gs::net().mtx);
        return gs::net().servers.size();
    }
    void start(std::vector<std::string> options)
    {
        // a program starts without what the previous one had in its memory
        spdlog::drop("benchmark");
        server_code = -1;
        Args* a     = new Args(options);
        auto* done  = new std::atomic<bool>(false);
        server      = std::thread([=] {
            server_code = SERVER_MAIN(a->n(), a->ptr.data());
            {
                std::lock_guard<std::mutex> g(gs::net().mtx);
                *done = true;
            }
            gs::net().stopped.notify_all();
        });
        std::unique_lock<std::mutex> l(gs::net().mtx);
        gs::net().stopped.wait(l, [&] { return *done || gs::net().waiting; });
        up = !*done;
    }
    void stop(int signal)
    {
        raise(signal);
        server.join();
        MC_CHECK(server_code == 0, "the server returned " + s(server_code) + "," + hist);
        MC_CHECK(listening() == 0, "the server still listens after its end," + hist);
        memdb::exited();
        up = false;
    }
    Run client(const std::vector<std::string>& options)
    {
        spdlog::drop("benchmark");
        Args               a(options);
        Run                r;
        MyOutput           o;
        auto*              old = std::cout.rdbuf(&o);
        try {
            r.code = CLIENT_MAIN(a.n(), a.ptr.data());
        } catch (const std::exception& e) {
            r.failed = true;
        }
        std::cout.rdbuf(old);
        r.out = o.out;
        return r;
    }
    // the results of the searches, in the order of the keywords
    std::vector<Ids> results(const std::string& out, size_t n)
    {
        std::vector<Ids> v;
        for (size_t p = 0; (p = out.find('{', p)) != std::string::npos;) {
            size_t e = out.find('}', p);
            MC_CHECK(e != std::string::npos, "the output is cut off: " + out + hist);
            std::istringstream in(out.substr(p + 1, e - p - 1));
            Ids                r;
            for (std::string x; std::getline(in, x, ',');) {
                MC_CHECK(x.find_first_not_of(" 0123456789") == std::string::npos && x.find_first_of("0123456789") != std::string::npos,
                         "the output has no number: '" + x + "' in " + out + hist);
                r.push_back(std::stoull(x));
            }
            v.push_back(r);
            p = e;
        }
        MC_CHECK(v.size() == n, "there are " + s(v.size()) + " results of " + s(n) + " searches: " + out + hist);
        return v;
    }
    void searched(const Run& r, const std::vector<std::string>& kws, bool hidden = false)
    {
        MC_CHECK(!r.failed && r.code == 0, "the client failed," + hist);
        auto v = results(r.out, kws.size());
        for (size_t i = 0; i < kws.size(); i++) {
            Ids e = up && owned && !hidden ? model[kws[i]] : Ids();
            std::sort(e.begin(), e.end());
            std::sort(v[i].begin(), v[i].end());
            MC_CHECK(v[i] == e,
                     "a search for '" + kws[i] + "' shows " + s(v[i].size()) + " results instead of " + s(e.size()) + ": " + r.out.substr(0, 300) + "," + hist + ", last status " + s(gs::net().last.error_code())
                         + " " + gs::net().last.error_message() + " " + gs::net().exception);
            mc::validated();
        }
    }
};
const std::vector<std::string> ALL = {"kw", "gen", "seven", "k", "unknown", ""};

void clean()
{
    memdb::g_fault = nullptr;
    memdb::forget();
    for (auto n : {"server", "client", "other", DEFAULT_CLIENT})
        wipe(at(n));
    standin::reset_world();
    gs::net().fault  = nullptr;
    gs::net().broken = nullptr;
    gs::net().eager  = true;
    gs::net().wait   = true;
    gs::net().last   = grpc::Status();
    gs::net().servers.clear();
    g_threads = 2;
    g_first   = 1000;
    optind    = 0;
}

struct Files
{
    Files()
    {
        std::ofstream(at("one")) << "kw 1 2 4294967295\nk 3\n";
        std::ofstream(at("two")) << "kw 5\n";
    }
};

// a client which did not set the server up is refused
void refused(World& w, const Run& r)
{
    MC_CHECK(r.failed || r.code != 0, "a client whose set-up was refused goes on," + w.hist);
    MC_CHECK(r.out.find('{') == std::string::npos, "a client whose set-up was refused searches," + w.hist);
}

void histories(int depth)
{
    clean();
    Files f;
    (void)!chdir(mc::scratch().c_str());
    std::unique_ptr<World> keep(new World);
    World&                 w = *keep;
    auto                   b = [&](std::vector<std::string> o) {
        o.insert(o.begin(), {"-b", at("client")});
        return o;
    };
    auto with = [&](std::vector<std::string> o, const std::vector<std::string>& kws) {
        o.insert(o.end(), kws.begin(), kws.end());
        return o;
    };
    for (int d = 0; d < depth; d++) {
        int op = d == 0 ? mc::choose(3, "first") : mc::choose(11, "operation");
        w.hist += " " + s(op);
        mc::transitions();
        bool works = w.up && true;
        switch (op) {
        case 0:
        case 1: // the server starts, or restarts
            if (w.up)
                w.stop(op ? SIGTERM : SIGINT);
            w.start(op ? std::vector<std::string>{"-b", at("server")} : std::vector<std::string>{"-s", "-b", at("server")});
            MC_CHECK(w.up, "the server does not start," + w.hist);
            break;
        case 2:
            if (w.up) {
                w.stop(SIGQUIT);
            } else if (!w.owned) {
                // a client without server cannot set it up
                refused(w, w.client(b({"kw"})));
            }
            break;
        case 3: { // load files and search
            if (!works)
                mc::prune();
            bool both = mc::flip("both files");
            w.owned   = true;
            auto add  = [&](const char* k, Ids v) { w.model[k].insert(w.model[k].end(), v.begin(), v.end()); };
            add("kw", {1, 2, 4294967295}), add("k", {3});
            if (both)
                add("kw", {5});
            w.searched(w.client(with(b(both ? std::vector<std::string>{"-l", at("one"), "-l", at("two")} : std::vector<std::string>{"-l", at("one")}), ALL)), ALL);
            break;
        }
        case 4: { // random documents
            if (!works)
                mc::prune();
            static const size_t counts[] = {1, 50, 51, 99, 230};
            size_t              n        = counts[mc::choose(5, "documents")];
            g_threads                    = 1 + mc::choose(3, "threads");
            w.owned                      = true;
            for (size_t i = 0; i < n; i++) {
                w.model["gen"].push_back(g_first + i);
                if (i % 7 == 0)
                    w.model["seven"].push_back(g_first + i);
            }
            w.searched(w.client(with(b({"-r", n == 50 ? "5e1" : s(n)}), ALL)), ALL);
            g_first += n;
            break;
        }
        case 5: // search only, options after the keywords too
            if (!w.up && !w.owned)
                mc::prune();
            w.owned = true;
            w.searched(w.client({"kw", "-b", at("client"), "gen"}), {"kw", "gen"});
            break;
        case 6: { // another client of the same server
            if (!works)
                mc::prune();
            Run r = w.client({"-b", at("other"), "-l", at("one"), "kw"});
            if (w.owned) {
                refused(w, r);
            } else {
                // it is the first one: the server is its own
                MC_CHECK(!r.failed && r.code == 0, "the first client failed," + w.hist);
                mc::prune();
            }
            break;
        }
        case 7: { // options which do not exist, or without argument
            static const std::vector<std::vector<std::string>> bad = {{"-x", "kw"}, {"kw", "-b"}, {"-r"}, {"-l"}};
            Run r = w.client(bad[mc::choose(bad.size(), "bad option")]);
            MC_CHECK(r.failed || r.code != 0, "a client with wrong options works," + w.hist);
            MC_CHECK(r.out.find('{') == std::string::npos, "a client with wrong options searches," + w.hist);
            break;
        }
        case 8: // a file which does not exist
            if (!works)
                mc::prune();
            w.owned = true;
            w.searched(w.client(b({"-l", at("missing"), "kw", "gen"})), {"kw", "gen"});
            break;
        case 9: // everything together
            if (!works)
                mc::prune();
            w.owned = true;
            for (size_t i = 0; i < 60; i++) {
                w.model["gen"].push_back(g_first + i);
                if (i % 7 == 0)
                    w.model["seven"].push_back(g_first + i);
            }
            w.model["kw"].push_back(5);
            w.searched(w.client(with(b({"-r", "60", "-l", at("two")}), ALL)), ALL);
            g_first += 60;
            break;
        default:
#ifdef QUIET
            if (!works)
                mc::prune();
            w.owned = true;
            w.searched(w.client(b({QUIET, "kw", "k"})), {"kw", "k"}, true);
            break;
#else
            mc::prune();
#endif
        }
    }
    // at the end, everything is there
    if (w.owned) {
        if (!w.up)
            w.start({"-b", at("server")});
        w.searched(w.client(b(ALL)), ALL);
    }
    if (w.up)
        w.stop(SIGTERM);
    mc::state(w.hist);
}

// without -b, in the current directory
void defaults()
{
    clean();
    Files f;
    (void)!chdir(mc::scratch().c_str());
    wipe(at(DEFAULT_SERVER));
    World w;
    bool  sync = mc::flip("synchronous");
    w.hist     = " default directories";
    w.start(sync ? std::vector<std::string>{"-s"} : std::vector<std::string>{});
    MC_CHECK(w.up, "the server does not start without options");
    w.owned = true;
    Ids e   = {1, 2, 4294967295};
    w.model["kw"] = e;
    w.searched(w.client({"-l", at("one"), "kw"}), {"kw"});
    MC_CHECK(sse::utility::is_directory(at(DEFAULT_CLIENT)), "the client is not in its default directory");
    w.stop(SIGTERM);
    w.start({});
    w.searched(w.client({"kw"}), {"kw"});
    w.stop(SIGINT);
    for (auto bad : {"-x", "-b"}) {
        w.start({bad});
        MC_CHECK(!w.up, std::string("a server with the wrong options ") + bad + " starts");
        w.server.join();
        MC_CHECK(w.server_code != 0, "a server with wrong options succeeds");
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    mc::Config c;
    c.shards      = 16;
    c.shard_depth = 2;
    int d         = mc::thorough() ? 4 : 3;
    mc::add("histories of runs of the programs", c, [=] { histories(d); });
    mc::add("default directories", mc::Config(), defaults);
}
