// P06: concurrent appends and reads of the append-only vector.
#include "vec_common.h"

#include <sys/stat.h>

namespace {
void setup(const kaio::Options& o)
{
    mc::Unmanaged u;
    kaio::fd_reset();
    kaio::reset(o);
    ::unlink((mc::scratch() + "/vec").c_str());
}

std::unique_ptr<Scheduler> aio()
{
    return std::unique_ptr<Scheduler>(sse::abstractio::make_linux_aio_scheduler(512, 128));
}
std::unique_ptr<Scheduler> pool()
{
    return std::unique_ptr<Scheduler>(sse::abstractio::make_thread_pool_aio_scheduler());
}

// pattern: per thread a string over s (blocking) and a (asynchronous)
template<typename T, size_t A = alignof(T)>
void appends(std::vector<std::string> pattern, int be, const kaio::Options& o, bool direct)
{
    setup(o);
    using Vec        = awonvm_vector<T, A>;
    std::string path = mc::scratch() + "/vec";
    auto v = std::make_unique<Vec>(path, be == 1 ? aio() : be == 2 ? pool() : nullptr, direct);
    size_t             total = 0;
    std::array<int, 8> pos;
    pos.fill(-1);
    {
        std::vector<std::thread> ts;
        int                      id = 0;
        for (auto& p : pattern) {
            ts.emplace_back([&v, &pos, p, id] {
                int k = id;
                for (char c : p) {
                    alignas(512) T x = make<T>(k + 1);
                    pos[k]           = c == 's' ? v->push_back(x) : v->async_push_back(x);
                    memset(&x, 0xEE, sizeof x);
                    k++;
                }
            });
            id += p.size();
            total += p.size();
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    std::array<int, 8> at;
    at.fill(-1);
    std::string order;
    for (size_t k = 0; k < total; k++) {
        MC_CHECK(pos[k] >= 0 && pos[k] < static_cast<int>(total),
                 "an append returned position " + s(pos[k]) + " of " + s(total));
        MC_CHECK(at[pos[k]] < 0, "two appends returned position " + s(pos[k]));
        at[pos[k]] = k + 1;
        order += s(pos[k]) + " ";
    }
    MC_CHECK(v->size() == total, "size is " + s(v->size()) + " after " + s(total) + " appends");
    v->commit();
    for (size_t i = 0; i < total; i++) {
        T r = v->get(i);
        MC_CHECK(is(r, at[i]), "position " + s(i) + " does not hold the value appended there");
    }
    v.reset();
    int         fd = ::open(path.c_str(), O_RDONLY);
    struct stat sb;
    fstat(fd, &sb);
    MC_CHECK(sb.st_size == static_cast<off_t>(total * sizeof(T)), "wrong file size");
    std::vector<T> all(total);
    ::pread(fd, all.data(), total * sizeof(T), 0);
    for (size_t i = 0; i < total; i++) {
        MC_CHECK(is(all[i], at[i]), "the file does not hold the values at their positions");
    }
    ::close(fd);
    mc::outcome(order);
}

// pattern per thread: g get, a async_get, b async_gets of two positions
template<typename T, size_t A = alignof(T)>
void reads(std::vector<std::string> pattern, int be, const kaio::Options& o, bool direct)
{
    setup(o);
    using Vec        = awonvm_vector<T, A>;
    constexpr int N  = 3;
    std::string path = mc::scratch() + "/vec";
    {
        mc::Unmanaged u;
        int           fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        for (int i = 0; i < N; i++) {
            T x = make<T>(i + 1);
            ::pwrite(fd, &x, sizeof x, i * sizeof x);
        }
        ::close(fd);
    }
    auto v = std::make_unique<Vec>(path, be == 1 ? aio() : be == 2 ? pool() : nullptr, direct);
    MC_CHECK(v->size() == N && v->is_committed(), "reopened vector");
    std::array<std::atomic<int>, 16> calls;
    for (auto& c : calls)
        c = 0;
    std::vector<int> expected;
    {
        std::vector<std::thread> ts;
        int                      id = 0, p0 = 0;
        auto                     cb = [&](int k, int p) {
            return [&calls, k, p](std::unique_ptr<T> r) {
                MC_CHECK(r && is(*r, p + 1),
                         "an asynchronous read of position " + s(p) + " delivers a wrong value");
                mc::sched_point("callback");
                calls[k]++;
            };
        };
        for (auto& p : pattern) {
            ts.emplace_back([&v, &cb, p, id, p0] {
                int k = id, q = p0;
                for (char c : p) {
                    if (c == 'g') {
                        T r = v->get(q % N);
                        MC_CHECK(is(r, q % N + 1),
                                 "a read of position " + s(q % N) + " returns a wrong value");
                    } else if (c == 'a') {
                        v->async_get(q % N, cb(k++, q % N));
                    } else {
                        std::vector<typename Vec::GetRequest> g;
                        g.emplace_back(q % N, cb(k, q % N));
                        g.emplace_back((q + 1) % N, cb(k + 1, (q + 1) % N));
                        v->async_gets(g);
                        k += 2;
                    }
                    q++;
                }
            });
            for (char c : p) {
                id += c == 'a' ? 1 : c == 'b' ? 2 : 0;
            }
            p0++;
        }
        for (auto& t : ts) {
            t.join();
        }
        // the destruction of the vector waits for what is in flight
        v.reset();
        for (int k = 0; k < 16; k++) {
            MC_CHECK(calls[k] == (k < id ? 1 : 0), "an asynchronous read callback ran "
                                                       + s(calls[k]) + " times by the time the "
                                                       + "vector was destroyed");
        }
    }
    mc::outcome("ok");
}
// one thread appends and commits; another one reads as soon as it sees the
// vector committed.  how: g get, a async_get, b async_gets
template<typename T, size_t A = alignof(T)>
void publish(char how, bool async, int be, const kaio::Options& o, bool direct)
{
    setup(o);
    using Vec        = awonvm_vector<T, A>;
    constexpr int N  = 2;
    std::string path = mc::scratch() + "/vec";
    auto             v    = std::make_unique<Vec>(path, be == 1 ? aio() : nullptr, direct);
    std::atomic<int> calls{0};
    int              read = 0;
    std::thread      t([&] {
        for (int i = 0; i < N; i++) {
            alignas(512) T x   = make<T>(i + 1);
            size_t         pos = async ? v->async_push_back(x) : v->push_back(x);
            MC_CHECK(pos == static_cast<size_t>(i), "an append of one thread returned position " + s(pos));
            memset(&x, 0xEE, sizeof x);
        }
        v->commit();
    });
    auto        cb = [&](int p) {
        return [&calls, p](std::unique_ptr<T> r) {
            MC_CHECK(r && is(*r, p + 1), "a read of the just committed vector delivers a wrong value at " + s(p));
            calls++;
        };
    };
    for (int tries = 0; tries < 2; tries++) {
        if (!v->is_committed())
            continue;
        MC_CHECK(v->size() == N, "the committed vector has size " + s(v->size()));
        if (how == 'b') {
            std::vector<typename Vec::GetRequest> g;
            for (int p = 0; p < N; p++)
                g.emplace_back(p, cb(p));
            v->async_gets(g);
            read += N;
        } else {
            for (int p = N - 1; p >= 0; p--) {
                if (how == 'a') {
                    v->async_get(p, cb(p));
                    read++;
                } else {
                    T r = v->get(p);
                    MC_CHECK(is(r, p + 1), "a read of the just committed vector returns a wrong value at " + s(p));
                }
            }
        }
        mc::transitions();
    }
    t.join();
    v.reset();
    MC_CHECK(calls == read, s(calls) + " of " + s(read) + " callbacks ran");
    mc::outcome(s(read));
}
} // namespace

void mc_register()
{
    sse::logger::logger()->debug("started"); // created once, before the executions
    auto cfg = [](int pb, int be = 1) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pb;
        c.shards      = 8;
        c.shard_depth = 8;
        c.deep        = 1;
        if (be == 2) {
            c.forked          = true;
            c.allow_leftover  = true;
            c.symmetric_start = true;
            c.max_threads     = 2;
        }
        return c;
    };
    auto opt = [](int cap, bool order) {
        kaio::Options o;
        o.capacity  = cap;
        o.any_order = order;
        o.split     = order;
        return o;
    };
    using V = std::vector<std::string>;
    auto nm = [](const V& p) {
        std::string r;
        for (auto& x : p)
            r += "-" + x;
        return r;
    };
    for (auto& p : {V{"s", "s"}, V{"ss", "s"}, V{"ss", "ss"}}) {
        mc::add("append-none" + nm(p), cfg(3), [=] { appends<Small>(p, 0, opt(8, false), false); });
    }
    mc::add("append-none-s-s-s", cfg(2), [=] { appends<Odd, 1>(V{"s", "s", "s"}, 0, opt(8, false), false); });
    for (auto& p : {V{"a", "a"}, V{"s", "a"}, V{"sa", "a"}, V{"as", "s"}}) {
        mc::add("append-aio" + nm(p), cfg(1),
                [=] { appends<Page>(p, 1, opt(8, true), true); });
        mc::add("append-aio-full" + nm(p), cfg(1),
                [=] { appends<Page>(p, 1, opt(1, true), false); });
    }
    for (auto& p : {V{"a", "a"}, V{"s", "a"}}) {
        mc::add("append-pool" + nm(p), cfg(p[0] == "a" ? mc::tier_pick(0, 1) : 1, 2),
                [=] { appends<Small>(p, 2, opt(8, false), false); });
    }
    for (auto& p : {V{"g", "g"}, V{"gg", "g"}}) {
        mc::add("read-none" + nm(p), cfg(3), [=] { reads<Small>(p, 0, opt(8, false), false); });
    }
    for (auto& p : {V{"a", "a"}, V{"g", "a"}, V{"b", "g"}, V{"ag", "a"}}) {
        mc::add("read-aio" + nm(p), cfg(1), [=] { reads<Page>(p, 1, opt(8, true), false); });
        mc::add("read-aio-full" + nm(p), cfg(1), [=] { reads<Page>(p, 1, opt(1, true), true); });
    }
    mc::add("read-aio-b-b", cfg(1), [=] { reads<Page>(V{"b", "b"}, 1, opt(2, true), true); });
    for (auto& p : {V{"a", "a"}, V{"b", "g"}}) {
        mc::add("read-pool" + nm(p), cfg(p[0] == "a" ? mc::tier_pick(0, 1) : 1, 2), [=] { reads<Small>(p, 2, opt(8, false), false); });
    }
    mc::add("publish-none", cfg(2), [=] { publish<Small>('g', false, 0, opt(8, false), false); });
    for (char h : {'g', 'a', 'b'}) {
        for (bool a : {false, true}) {
            mc::add(std::string("publish-aio-") + h + (a ? "-async" : ""), cfg(1),
                    [=] { publish<Page>(h, a, 1, opt(8, true), true); });
        }
    }
}
