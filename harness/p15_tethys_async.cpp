// P15: asynchronous lookups in a Tethys store, on the kernel back end (model
// kernel) or, in builds without libaio, on the thread-pool back end.
#include "model_aio.h"
#include "tethys_common.h"

#include <sse/configure.hpp>

#include <atomic>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>

namespace {
using namespace ts;
constexpr size_t PAGE = 4096;
using Key             = KeyOf<16>;
using H               = Hasher<16>;
using Enc             = encoders::EncodeSeparateEncoder<Key, uint64_t, PAGE>;
using Dec             = encoders::EncodeSeparateDecoder<Key, uint64_t, PAGE>;
using Builder         = TethysStoreBuilder<PAGE, Key, uint64_t, H, Enc, Enc>;
using Store           = TethysStore<PAGE, Key, uint64_t, H, Dec>;
using List            = std::vector<uint64_t>;
#ifdef HAS_LIBAIO
constexpr bool kKernel = true;
#else
constexpr bool kKernel = false;
#endif

// the table: 4 buckets; lists of every kind of placement
constexpr size_t G = 4;
struct Item
{
    Key  key;
    List vals;
};
std::vector<Item>& items()
{
    static std::vector<Item> i;
    return i;
}
std::string& table_bytes()
{
    static std::string b;
    return b;
}
std::string& stash_bytes()
{
    static std::string b;
    return b;
}

std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
void spill(const std::string& p, const std::string& b)
{
    int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (::write(fd, b.data(), b.size()) != (ssize_t)b.size())
        abort();
    ::close(fd);
}

// built once by the real builder, before the executions
void build_table()
{
    constexpr size_t kMax = Builder::kMaxListSize;
    // (0,0): three of the largest lists, the third goes to the stash;
    // (0,1): small; (1,1): one of the largest; unknown keys
    struct
    {
        size_t b0, b1, len;
    } in[] = {{0, 0, kMax}, {0, 0, kMax}, {0, 1, 3}, {1, 1, kMax}, {0, 0, 40}, {1, 1, 0}};
    kaio::Options o;
    kaio::reset(o);
    // in a child: the builder starts threads
    std::string t = "/tmp/p15." + s(getpid());
    pid_t       c = fork();
    if (c == 0) {
        TethysStoreBuilderParam p;
        p.tethys_table_path = t + ".table";
        p.tethys_stash_path = t + ".stash";
        p.epsilon           = 0;
        p.max_n_elements    = G / 2 * Builder::kBucketSize;
        Builder b(p);
        size_t  n = 0;
        for (auto& i : in) {
            List v;
            for (size_t j = 0; j < i.len; j++)
                v.push_back(n * 1000 + j);
            b.insert_list(make_key<16>(G, i.b0, i.b1, n), v);
            n++;
        }
        b.build();
        _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    if (st != 0) {
        fprintf(stderr, "the table cannot be built\n");
        _exit(3);
    }
    table_bytes() = slurp(t + ".table");
    stash_bytes() = slurp(t + ".stash");
    unlink((t + ".table").c_str());
    unlink((t + ".stash").c_str());
    size_t n = 0;
    for (auto& i : in) {
        List v;
        for (size_t j = 0; j < i.len; j++)
            v.push_back(n * 1000 + j);
        items().push_back({make_key<16>(G, i.b0, i.b1, n), v});
        n++;
    }
    items().push_back({make_key<16>(G, 1, 0, 50), {}}); // unknown
}

bool same(List a, List b)
{
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}

// one string per thread: digit = asynchronous lookup of that list; with 'd'
// before it: with the caller's decoder; 'g' before it: blocking; 'b': the
// two buckets; 'c': a lookup whose callback looks up the next list
void lookups(std::vector<std::string> pattern, const kaio::Options& o, bool direct)
{
    std::string tab = mc::scratch() + "/table", st = mc::scratch() + "/stash";
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::reset(o);
        spill(tab, table_bytes());
        spill(st, stash_bytes());
    }
    auto store = std::make_unique<Store>(tab, st);
    if (direct)
        store->use_direct_IO(true);
    Dec                              dec;
    std::array<std::atomic<int>, 16> calls;
    std::array<int, 16>              expected{};
    for (auto& c : calls)
        c = 0;
    int n = 0;
    {
        std::vector<std::thread> ts;
        auto                     lister = [&](int id, int item) {
            return [&calls, id, item](List r) {
                MC_CHECK(same(r, items()[item].vals), "an asynchronous lookup of list " + s(item) + " delivers "
                                                          + s(r.size()) + " values, "
                                                          + (r.size() == items()[item].vals.size() ? "others"
                                                                                                  : "not " + s(items()[item].vals.size())));
                mc::sched_point("callback");
                calls[id]++;
            };
        };
        auto pairs = [&](int id, int item) {
            return [&calls, id, item](std::unique_ptr<Store::payload_type> b, size_t index) {
                uint32_t h[2];
                memcpy(h, items()[item].key.data(), 8);
                size_t i0 = h[0] % (G / 2), i1 = G / 2 + h[1] % (G / 2);
                MC_CHECK(index == i0 || index == i1, "a wrong bucket is delivered for list " + s(item));
                MC_CHECK(b && !memcmp(b->data(), table_bytes().data() + index * PAGE, PAGE),
                         "a delivered bucket is not the stored one");
                calls[id] += index == i0 ? 1 : 16;
            };
        };
        for (auto& p : pattern) {
            int first = n;
            for (size_t i = 0; i < p.size(); i++) {
                char c        = p[i];
                expected[n++] = c == 'g' ? 0 : c == 'b' ? 17 : c == 'c' ? 2 : 1;
                i += c > '9';
            }
            ts.emplace_back([&, p, first] {
                int id = first;
                for (size_t i = 0; i < p.size(); i++) {
                    char c = p[i];
                    if (c >= '0' && c <= '9') {
                        store->async_get_list(items()[c - '0'].key, lister(id++, c - '0'));
                        continue;
                    }
                    int item = p[++i] - '0';
                    if (c == 'd') {
                        store->async_get_list(items()[item].key, dec, lister(id++, item));
                    } else if (c == 'g') {
                        auto r = store->get_list(items()[item].key);
                        MC_CHECK(same(r, items()[item].vals), "a blocking lookup of list " + s(item) + " is wrong");
                        id++;
                    } else if (c == 'b') {
                        store->async_get_buckets(items()[item].key, pairs(id++, item));
                    } else if (c == 'c') {
                        auto inner = lister(id, item), outer = lister(id, item);
                        id++;
                        Store* raw = store.get();
                        store->async_get_list(items()[item].key, [=](List r) {
                            outer(r);
                            raw->async_get_list(items()[item].key, inner);
                        });
                    }
                }
            });
        }
        for (auto& t : ts)
            t.join();
    }
    // lookups made by callbacks are rejected once the destruction has begun
    for (auto& p : pattern) {
        if (p.find('c') != std::string::npos)
            mc::block_until(
                [&] {
                    for (int k = 0; k < n; k++)
                        if (expected[k] == 2 && calls[k].load(std::memory_order_relaxed) != 2)
                            return false;
                    return true;
                },
                "the lookups made by callbacks");
    }
    // the destruction of the store waits for what is in flight
    store.reset();
    for (int k = 0; k < 16; k++) {
        MC_CHECK(calls[k] == expected[k], "the callback of lookup " + s(k) + " ran " + s(calls[k]) + " times instead of "
                                              + s(expected[k]) + " by the time the store was destroyed");
    }
    if (kKernel)
        MC_CHECK(kaio::open_fds() == 0, "file descriptors are left open");
    mc::validated(n);
    mc::outcome("ok");
}
} // namespace

void mc_register()
{
    sse::logger::logger()->debug("started"); // created once, before the executions
    if (!getenv("MC_LOG"))
        std::cerr.rdbuf(nullptr);
    build_table();
    auto cfg = [](int pb, int threads = 2) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pb;
        c.shards      = 8;
        c.shard_depth = 8;
        c.deep        = 1;
        if (!kKernel) {
            c.forked          = true;
            c.allow_leftover  = true;
            c.symmetric_start = true;
            c.max_threads     = threads;
        }
        return c;
    };
    using V = std::vector<std::string>;
    auto nm = [](const V& p) {
        std::string r;
        for (auto& x : p)
            r += " " + x;
        return r;
    };
    if (kKernel) {
        auto opt = [](int cap) {
            kaio::Options o;
            o.capacity  = cap;
            o.any_order = o.split = o.partial = true;
            return o;
        };
        for (auto& p : {V{"0"}, V{"1"}, V{"2"}, V{"3"}, V{"4"}, V{"5"}, V{"6"}, V{"d0"}, V{"b2"}, V{"g4"}, V{"c2"}})
            for (int direct = 0; direct < 2; direct++)
                mc::add("kernel" + nm(p) + (direct ? " direct" : ""), cfg(p[0] == "c2" ? 0 : 1), [=] { lookups(p, opt(8), direct); });
        for (auto& p : {V{"24"}, V{"22"}, V{"4d4"}, V{"b0g0"}, V{"2", "4"}, V{"d4", "4"}, V{"2", "g0"}, V{"2", "b3"}})
            for (int cap : {1, 3, 8})
                mc::add("kernel" + nm(p) + " capacity " + s(cap),
                        cfg(p[0][0] == 'b' || (cap == 1 && p.size() == 1) ? 1 : mc::tier_pick(0, 1)),
                        [=] { lookups(p, opt(cap), cap == 3); });
        kaio::Options whole;
        whole.capacity  = 8;
        whole.any_order = true;
        whole.split     = false;
        mc::add("kernel 01", cfg(0), [=] { lookups(V{"01"}, whole, false); });
        mc::add("kernel 0 3", cfg(0), [=] { lookups(V{"0", "3"}, whole, true); });
        mc::add("kernel 244", cfg(0), [=] { lookups(V{"244"}, whole, false); });
    } else {
        kaio::Options o;
        for (auto& p : {V{"2"}, V{"4"}, V{"6"}, V{"d4"}, V{"b2"}, V{"c2"}})
            mc::add("pool" + nm(p), cfg(1), [=] { lookups(p, o, false); });
        for (auto& p : {V{"24"}, V{"2d2"}, V{"b4g4"}, V{"2", "4"}})
            mc::add("pool" + nm(p), cfg(p.size() == 1 ? 1 : 0), [=] { lookups(p, o, false); });
    }
}
