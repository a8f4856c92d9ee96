// P16, second part: asynchronous lookups in a cuckoo table under all
// schedules, on the kernel back end (model kernel) or the thread-pool one.
#include "mc.h"
#include "model_aio.h"

#include <sse/configure.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <array>
#include <atomic>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace {
using namespace sse::oceanus;
constexpr size_t PAGE = 4096;
using Val             = data_type<PAGE>;
using Server          = Oceanus<PAGE>;
#ifdef HAS_LIBAIO
constexpr bool kKernel = true;
#else
constexpr bool kKernel = false;
#endif
std::string s(size_t i)
{
    return std::to_string(i);
}
key_type key(size_t i)
{
    uint64_t h[2] = {i % 2 + 2 * i, 1 - i % 2 + 4 * i};
    key_type k;
    memcpy(k.data(), h, 16);
    return k;
}
Val val(size_t i)
{
    Val v;
    v.fill(0x0101010101010101ULL * (i + 3));
    return v;
}
std::string& bytes()
{
    static std::string b;
    return b;
}
constexpr size_t N = 3; // 0..2 are stored, some in the first, some in the second half

void build_table()
{
    kaio::Options o;
    kaio::reset(o);
    std::string t = "/tmp/p16." + s(getpid());
    pid_t       c = fork();
    if (c == 0) {
        OceanusBuilder<PAGE> b(t, 2, 0, 10);
        for (size_t i = 0; i < N; i++)
            b.insert(key(i), val(i));
        b.commit();
        _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    if (st != 0) {
        fprintf(stderr, "the table cannot be built\n");
        _exit(3);
    }
    std::ifstream f(t);
    bytes() = std::string(std::istreambuf_iterator<char>(f), {});
    unlink(t.c_str());
}

// one string per thread: digit = asynchronous lookup, 'g' before it: blocking
void lookups(std::vector<std::string> pattern, const kaio::Options& o, bool direct)
{
    std::string tab = mc::scratch() + "/table";
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::reset(o);
        int fd = ::open(tab.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (::write(fd, bytes().data(), bytes().size()) != (ssize_t)bytes().size())
            abort();
        ::close(fd);
    }
    auto sv = std::make_unique<Server>(tab);
    sv->cuckoo_table.use_direct_IO(direct);
    std::array<std::atomic<int>, 8> calls;
    std::array<int, 8>              expected{};
    for (auto& c : calls)
        c = 0;
    int n = 0;
    {
        std::vector<std::thread> ts;
        for (auto& p : pattern) {
            int first = n;
            for (size_t i = 0; i < p.size(); i++) {
                expected[n++] = p[i] != 'g';
                i += p[i] == 'g';
            }
            ts.emplace_back([&, p, first] {
                int id = first;
                for (size_t i = 0; i < p.size(); i++, id++) {
                    bool   get = p[i] == 'g';
                    size_t k   = p[get ? ++i : i] - '0';
                    if (get) {
                        bool found = true;
                        Val  v;
                        try {
                            v = sv->get(key(k));
                        } catch (const std::out_of_range&) {
                            found = false;
                        }
                        MC_CHECK(found == (k < N) && (!found || v == val(k)), "a blocking lookup of key " + s(k) + " is wrong");
                        continue;
                    }
                    sv->cuckoo_table.async_get(key(k), [&calls, id, k](std::experimental::optional<Val> v) {
                        MC_CHECK(bool(v) == (k < N), "an asynchronous lookup of key " + s(k)
                                                         + (v ? " finds something" : " finds nothing"));
                        MC_CHECK(!v || *v == val(k), "an asynchronous lookup of key " + s(k) + " delivers another value");
                        mc::sched_point("callback");
                        calls[id]++;
                    });
                }
            });
        }
        for (auto& t : ts)
            t.join();
    }
    sv.reset(); // waits for what is in flight
    for (int k = 0; k < 8; k++)
        MC_CHECK(calls[k] == expected[k], "the callback of lookup " + s(k) + " ran " + s(calls[k]) + " times instead of "
                                              + s(expected[k]) + " by the time the table was destroyed");
    if (kKernel)
        MC_CHECK(kaio::open_fds() == 0, "file descriptors are left open");
    mc::validated(n);
    mc::outcome("ok");
}
} // namespace

void mc_register()
{
    sse::logger::logger()->debug("started");
    if (!getenv("MC_LOG"))
        std::cerr.rdbuf(nullptr);
    build_table();
    auto cfg = [](int pb) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pb;
        c.shards      = 8;
        c.shard_depth = 8;
        c.deep        = 1;
        if (!kKernel) {
            c.forked          = true;
            c.allow_leftover  = true;
            c.symmetric_start = true;
            c.max_threads     = 2;
        }
        return c;
    };
    using W = std::vector<std::string>;
    auto nm = [](const W& p) {
        std::string r;
        for (auto& x : p)
            r += " " + x;
        return r;
    };
    if (kKernel) {
        for (auto& p : {W{"0"}, W{"1"}, W{"2"}, W{"3"}, W{"g0"}, W{"0g1"}, W{"03"}, W{"0", "2"}, W{"0", "g0"}})
            for (int cap : {1, 8}) {
                kaio::Options o;
                o.capacity  = cap;
                o.any_order = o.split = o.partial = true;
                bool two = p.size() > 1 || p[0].size() == 2 && p[0][0] != 'g';
                mc::add("kernel" + nm(p) + " capacity " + s(cap), cfg(two ? mc::tier_pick(0, 1) : 1),
                        [=] { lookups(p, o, cap == 8); });
            }
    } else {
        kaio::Options o;
        for (auto& p : {W{"0"}, W{"1"}, W{"2"}, W{"3"}, W{"03"}, W{"0", "2"}})
            mc::add("pool" + nm(p), cfg(p.size() == 1 ? 1 : 0), [=] { lookups(p, o, false); });
    }
}
