// P05: every short history of the append-only vector against a plain model.
#include "vec_common.h"

namespace {
enum Backend
{
    NONE,   // no scheduler
    AIO,    // libaio scheduler on the model kernel
    POOL,   // thread-pool scheduler
    DEFAULT // whatever the path constructor picks
};

std::unique_ptr<Scheduler> scheduler(Backend b)
{
    switch (b) {
    case AIO:
        return std::unique_ptr<Scheduler>(sse::abstractio::make_linux_aio_scheduler(512, 128));
    case POOL:
        return std::unique_ptr<Scheduler>(sse::abstractio::make_thread_pool_aio_scheduler());
    default:
        return nullptr;
    }
}

template<typename T, size_t A = alignof(T)>
struct Driver
{
    using Vec = awonvm_vector<T, A>;
    std::string          path;
    Backend              be;
    bool                 async_ok; // asynchronous calls are possible
    std::unique_ptr<Vec> v;
    std::vector<int>     vals;
    bool                 committed = false;
    bool                 direct;
    int                  next = 1;
    std::string          trace;

    Driver(Backend b, bool d) : be(b), async_ok(b != NONE), direct(d)
    {
        path = mc::scratch() + "/vec";
        ::unlink(path.c_str());
        open();
    }
    void open()
    {
        if (be == DEFAULT) {
            v.reset(new Vec(path, direct));
        } else {
            v.reset(new Vec(path, scheduler(be), direct));
        }
        committed = !vals.empty();
    }
    std::string at() const
    {
        return " [" + trace + "]";
    }
    void state_ok()
    {
        MC_CHECK(v->size() == vals.size(), "size is " + s(v->size()) + " after " + s(vals.size())
                                               + " appends" + at());
        MC_CHECK(v->is_committed() == committed, "is_committed is wrong" + at());
        MC_CHECK(v->use_direct_access() == direct, "use_direct_access is wrong" + at());
        mc::validated();
    }

    // 0 append 1 async append 2 reserve 3 commit 4 toggle 5 move 6 reopen
    static constexpr int kOps = 7;
    bool apply(int op)
    {
        static const char* nm[]
            = {"push", "apush", "reserve", "commit", "toggle", "move", "reopen"};
        trace += std::string(trace.empty() ? "" : " ") + nm[op];
        mc::transitions();
        switch (op) {
        case 0:
        case 1: {
            if (op == 1 && !async_ok) {
                mc::prune();
            }
            if (committed) {
                mc::prune(); // rejected: covered by the final sweep
            }
            alignas(512) T x   = make<T>(next);
            size_t         pos = op == 0 ? v->push_back(x) : v->async_push_back(x);
            memset(&x, 0xEE, sizeof x); // the caller's copy may go away
            MC_CHECK(pos == vals.size(), "append returned position " + s(pos) + " instead of "
                                             + s(vals.size()) + at());
            vals.push_back(next++);
            break;
        }
        case 2: {
            int k = mc::choose(2, "reserve") ? 4 : 1;
            trace += s(k);
            v->reserve(k);
            break;
        }
        case 3:
            v->commit();
            committed = true;
            break;
        case 4:
            if (A % 512 != 0) {
                mc::prune(); // direct accesses need aligned values
            }
            direct = !direct;
            v->set_use_direct_access(direct);
            break;
        case 5: {
            auto n = std::make_unique<Vec>(std::move(*v));
            v      = std::move(n); // destroys the moved-from vector
            break;
        }
        case 6:
            v.reset();
            open();
            break;
        }
        state_ok();
        return true;
    }

    void sweep()
    {
        const size_t n = vals.size();
        auto         throws = [&](const std::function<void()>& f) {
            try {
                f();
            } catch (std::exception&) {
                return true;
            }
            return false;
        };
        std::vector<std::unique_ptr<std::atomic<int>>> calls;
        std::vector<std::unique_ptr<T>>                got(3 * n + 8);
        for (size_t i = 0; i < got.size(); i++) {
            calls.push_back(std::make_unique<std::atomic<int>>(0));
        }
        auto cb = [&](int k) {
            return [&, k](std::unique_ptr<T> r) {
                got[k] = std::move(r);
                (*calls[k])++;
            };
        };
        using GR = typename Vec::GetRequest;
        if (!committed) {
            MC_CHECK(throws([&] { v->get(0); }), "get of an uncommitted vector succeeds" + at());
            MC_CHECK(throws([&] { v->async_get(0, cb(0)); }),
                     "async_get of an uncommitted vector succeeds" + at());
            MC_CHECK(throws([&] { v->async_gets({GR(0, cb(0))}); }),
                     "async_gets of an uncommitted vector succeeds" + at());
        } else {
            alignas(512) T x = make<T>(15);
            MC_CHECK(throws([&] { v->push_back(x); }),
                     "append to a committed vector is not rejected" + at());
            MC_CHECK(throws([&] { v->async_push_back(x); }),
                     "asynchronous append to a committed vector is not rejected" + at());
            for (size_t i = n; i < n + 3; i++) {
                MC_CHECK(throws([&] { v->get(i); }),
                         "get at position " + s(i) + " of a vector of size " + s(n)
                             + " is not rejected" + at());
                MC_CHECK(throws([&] { v->async_get(i, cb(0)); }),
                         "async_get at position " + s(i) + " of a vector of size " + s(n)
                             + " is not rejected" + at());
                MC_CHECK(throws([&] { v->async_gets({GR(i, cb(0))}); }),
                         "async_gets at position " + s(i) + " of a vector of size " + s(n)
                             + " is not rejected" + at());
                if (n > 0) {
                    MC_CHECK(throws([&] { v->async_gets({GR(0, cb(0)), GR(i, cb(1))}); }),
                             "async_gets with one position out of range is not rejected" + at());
                }
            }
        }
        state_ok();
        int expect = 0;
        if (committed) {
            for (size_t i = 0; i < n; i++) {
                T r = v->get(i);
                MC_CHECK(is(r, vals[i]), "get(" + s(i) + ") returns a wrong value" + at());
            }
            if (async_ok) {
                std::vector<GR> reqs;
                for (size_t i = 0; i < n; i++) {
                    v->async_get(i, cb(8 + i));
                    reqs.emplace_back(n - 1 - i, cb(8 + n + i));
                }
                if (n > 0) {
                    reqs.emplace_back(0, cb(8 + 2 * n));
                }
                v->async_gets(reqs);
                v->async_gets({});
                expect = 2 * n + (n > 0 ? 1 : 0);
                wait_until(
                    [&] {
                        int c = 0;
                        for (size_t i = 8; i < calls.size(); i++) {
                            c += *calls[i];
                        }
                        return c >= expect;
                    },
                    "all asynchronous reads complete");
                for (size_t i = 0; i < n; i++) {
                    MC_CHECK(got[8 + i] && is(*got[8 + i], vals[i]),
                             "async_get(" + s(i) + ") delivers a wrong value" + at());
                    MC_CHECK(got[8 + n + i] && is(*got[8 + n + i], vals[n - 1 - i]),
                             "async_gets delivers a wrong value for position " + s(n - 1 - i)
                                 + at());
                }
                if (n > 0) {
                    MC_CHECK(got[8 + 2 * n] && is(*got[8 + 2 * n], vals[0]),
                             "async_gets delivers a wrong value for a repeated position" + at());
                }
            }
        }
        v.reset(); // joins what is in flight
        for (size_t i = 0; i < calls.size(); i++) {
            int want = (i >= 8 && static_cast<int>(i) < 8 + expect) ? 1 : 0;
            MC_CHECK(*calls[i] == want, "an asynchronous read callback ran " + s(*calls[i])
                                            + " times instead of " + s(want) + at());
        }
        mc::validated(n + 1);
    }
};

template<typename T, size_t A = alignof(T)>
void history(Backend be, bool direct, int depth, kaio::Options o)
{
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::reset(o);
    }
    const bool plain = !mc::managed_now();
    Driver<T, A> d(be, direct);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(Driver<T, A>::kOps + 1, "op");
        if (op == Driver<T, A>::kOps) {
            break;
        }
        d.apply(op);
    }
    d.sweep();
    // what a later process finds
    d.trace += " | reopened";
    d.open();
    d.state_ok();
    d.sweep();
    if (!plain) {
        MC_CHECK(kaio::open_fds() == 0, "file descriptors are left open" + d.at());
    } else {
        MC_CHECK(fcntl(0, F_GETFD) >= 0, "standard input was closed" + d.at());
    }
    mc::outcome(s(d.vals.size()) + (d.committed ? "c" : "u"));
    mc::state(d.trace);
}

// long vectors: positions beyond small counts, reserve hints, batch reads
template<typename T>
void longer(Backend be, int n)
{
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::Options o;
        o.any_order = o.split = false;
        kaio::reset(o);
    }
    Driver<T> d(be, false);
    int       res = mc::choose(3, "reserve"); // none, less, more
    if (res) {
        d.v->reserve(res == 1 ? n / 2 : n + 3);
    }
    int pat = mc::choose(d.async_ok ? 3 : 1, "pattern"); // sync, async, alternating
    for (int i = 0; i < n; i++) {
        d.apply(pat == 0 ? 0 : pat == 1 ? 1 : i % 2);
        d.next = 1 + d.next % 13;
    }
    d.trace = "long " + s(n) + " reserve " + s(res) + " pattern " + s(pat);
    d.apply(3);
    d.sweep();
    d.open();
    d.sweep();
}

// reads which the kernel refuses, cuts short or fails: the others get their values
void failing(int n, int faults)
{
    kaio::Options o;
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        o.split = false;
        kaio::reset(o);
    }
    Driver<Page> d(AIO, false);
    for (int i = 0; i < n; i++)
        d.apply(i % 2);
    d.apply(3);
    kaio::Options f = o;
    f.partial = f.submit_error = f.io_error = true;
    f.faults                                = faults;
    {
        mc::Unmanaged u;
        kaio::change(f);
    }
    using GR = Driver<Page>::Vec::GetRequest;
    struct Read
    {
        int                   pos, calls = 0;
        bool                  accepted = true;
        std::unique_ptr<Page> got;
    };
    auto* reads = new std::vector<Read>(n + 1 + 2 * n);
    auto  cb    = [=](int k) {
        return [=](std::unique_ptr<Page> r) {
            (*reads)[k].got = std::move(r);
            (*reads)[k].calls++;
        };
    };
    auto call = [&](int first, int count, bool batch) {
        std::vector<GR> reqs;
        for (int i = 0; i < count; i++) {
            (*reads)[first + i].pos = i;
            reqs.emplace_back(i, cb(first + i));
        }
        try {
            if (batch)
                d.v->async_gets(reqs);
            else
                d.v->async_get(0, cb(first));
        } catch (const std::exception&) {
            for (int i = 0; i < count; i++)
                (*reads)[first + i].accepted = false;
        }
        mc::transitions();
    };
    bool batch_first = mc::flip("batch first");
    if (batch_first)
        call(0, n, true);
    call(n, 1, false);
    if (!batch_first)
        call(0, n, true);
    {
        mc::Unmanaged u;
        kaio::change(o);
    }
    call(n + 1, n, true);
    d.v.reset();
    int missing = 0;
    for (int i = 0; i < 2 * n + 1; i++) {
        auto& r = (*reads)[i];
        MC_CHECK(r.calls <= 1 && (!r.accepted || r.calls == 1), "the callback of a read runs " + s(r.calls) + " times" + (r.accepted ? "" : " (refused)"));
        MC_CHECK(!r.got || is(*r.got, d.vals[r.pos]), "a read at position " + s(r.pos) + " delivers a wrong value");
        if (i > n)
            MC_CHECK(r.accepted && r.got, "a read after failed ones is refused or delivers nothing");
        missing += r.calls && !r.got;
        mc::validated();
    }
    MC_CHECK(missing <= faults, s(missing) + " reads deliver nothing, only " + s(faults) + " failed");
    delete reads;
}
// a value which depends on its position only
template<typename T>
T at_pos(uint64_t pos)
{
    T v;
    memset((void*)&v, static_cast<int>(0x5A ^ pos), sizeof v);
    uint64_t x = pos * 0x9E3779B97F4A7C15ull + 1;
    memcpy((void*)&v, &x, std::min(sizeof x, sizeof v));
    return v;
}
template<typename T>
bool is_pos(const T& v, uint64_t pos)
{
    const T w = at_pos<T>(pos);
    return memcmp(&v, &w, sizeof v) == 0;
}

// values behind the 2 and 4 GiB borders of the (sparse) file
template<typename T, size_t A = alignof(T)>
void far(Backend be, bool direct)
{
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::Options o;
        o.any_order = o.split = false;
        kaio::reset(o);
    }
    using Vec             = awonvm_vector<T, A>;
    std::string           path = mc::scratch() + "/vec";
    std::vector<uint64_t> pos  = {0, 1};
    for (int b : {16, 24, 31, 32, 33}) {
        uint64_t p = (uint64_t(1) << b) / sizeof(T);
        for (uint64_t q : {p - 1, p, p + 1})
            pos.push_back(q);
    }
    pos.push_back((uint64_t(1) << 34) / sizeof(T) + 3);
    {
        mc::Unmanaged u;
        ::unlink(path.c_str());
        int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        for (uint64_t p : pos) {
            T x = at_pos<T>(p);
            MC_CHECK(::pwrite(fd, &x, sizeof x, p * sizeof x) == sizeof x, "a sparse file cannot be made");
        }
        ::close(fd);
    }
    {
        std::unique_ptr<Vec> v(new Vec(path, scheduler(be), direct));
        MC_CHECK(v->size() == pos.back() + 1, "size is " + s(v->size()) + " instead of " + s(pos.back() + 1));
        MC_CHECK(v->is_committed(), "a reopened vector is not committed");
        std::atomic<size_t> calls{0};
        auto                cb = [&](uint64_t p) {
            return [&calls, p](std::unique_ptr<T> r) {
                MC_CHECK(r && is_pos(*r, p), "an asynchronous read at position " + s(p) + " delivers a wrong value");
                calls++;
            };
        };
        int    how   = mc::choose(be == NONE ? 1 : 3, "how");
        size_t asked = 0;
        if (how == 2) {
            std::vector<typename Vec::GetRequest> g;
            for (uint64_t p : pos)
                g.emplace_back(p, cb(p));
            v->async_gets(g);
            asked = pos.size();
        } else {
            for (uint64_t p : pos) {
                if (how == 0) {
                    T r = v->get(p);
                    MC_CHECK(is_pos(r, p), "a read at position " + s(p) + " returns a wrong value");
                } else {
                    v->async_get(p, cb(p));
                    asked++;
                }
            }
        }
        bool threw = false;
        try {
            v->get(pos.back() + 1);
        } catch (const std::exception&) {
            threw = true;
        }
        MC_CHECK(threw, "a read behind the end succeeds");
        v.reset();
        MC_CHECK(calls == asked, s(calls) + " of " + s(asked) + " callbacks ran");
        mc::transitions(pos.size());
        mc::validated(pos.size());
    }
    ::unlink(path.c_str());
}

// more appends than fit 8 or 16 bits
template<typename T, size_t A = alignof(T)>
void many(Backend be, size_t n)
{
    {
        mc::Unmanaged u;
        kaio::fd_reset();
        kaio::Options o;
        o.any_order = o.split = false;
        kaio::reset(o);
    }
    using Vec        = awonvm_vector<T, A>;
    std::string path = mc::scratch() + "/vec";
    ::unlink(path.c_str());
    int pat = mc::choose(be == NONE ? 1 : 2, "pattern"); // sync, async
    int res = mc::choose(2, "reserve");
    {
        Vec v(path, scheduler(be), false);
        if (res)
            v.reserve(n);
        for (size_t i = 0; i < n; i++) {
            T      x = at_pos<T>(i);
            size_t p = pat ? v.async_push_back(x) : v.push_back(x);
            MC_CHECK(p == i, "append " + s(i) + " returned position " + s(p));
        }
        MC_CHECK(v.size() == n, "size is " + s(v.size()) + " after " + s(n) + " appends");
        if (mc::flip("commit"))
            v.commit();
    }
    Vec v(path, scheduler(be), false);
    MC_CHECK(v.size() == n, "size is " + s(v.size()) + " after " + s(n) + " appends and reopening");
    for (size_t i = 0; i < n; i++) {
        T r = v.get(i);
        MC_CHECK(is_pos(r, i), "position " + s(i) + " of " + s(n) + " holds a wrong value");
    }
    mc::transitions(n);
}
} // namespace

void mc_register()
{
    sse::logger::logger()->debug("started"); // created once, before the executions
    auto cfg = [](bool managed, int shards) {
        mc::Config c;
        c.managed     = managed;
        c.preemptions = 0;
        c.spurious    = false;
        c.shards      = shards;
        c.shard_depth = 2;
        return c;
    };
    const int     D = mc::tier_pick(5, 6);
    kaio::Options o;
    o.any_order = o.split = false;
    for (int dir = 0; dir < 2; dir++) {
        std::string t = dir ? "-direct" : "-buffered";
        mc::add("history-aio-page" + t, cfg(true, 16),
                [=] { history<Page>(AIO, dir, D, o); });
        kaio::Options w = o;
        w.any_order     = true;
        mc::add("history-aio-page-anyorder" + t, cfg(true, 16),
                [=] { history<Page>(AIO, dir, D - 3, w); });
        mc::add("history-pool-page" + t, cfg(false, 8),
                [=] { history<Page>(POOL, dir, D - 1, o); });
        mc::add("history-none-page" + t, cfg(true, 8),
                [=] { history<Page>(NONE, dir, D, o); });
    }
    mc::add("history-pool-small", cfg(false, 8), [=] { history<Small>(POOL, false, D - 1, o); });
    mc::add("history-pool-odd", cfg(false, 8), [=] { history<Odd, 1>(POOL, false, D - 1, o); });
    mc::add("history-none-small", cfg(true, 8), [=] { history<Small>(NONE, false, D, o); });
    mc::add("history-default-page", cfg(true, 8), [=] {
        kaio::Options x = o;
        history<Page, 512>(AIO, false, D - 1, x);
    });
    for (int n : {1, 2, 3}) {
        mc::add("failing reads, " + s(n) + " values", cfg(true, 8), [=] { failing(n, mc::tier_pick(1, 2)); });
    }
    for (int n : {5, 7, 9}) {
        mc::add("long-aio-" + s(n), cfg(true, 1), [=] { longer<Page>(AIO, n); });
        mc::add("long-pool-" + s(n), cfg(false, 1), [=] { longer<Small>(POOL, n); });
        mc::add("long-none-" + s(n), cfg(true, 1), [=] { longer<Odd>(NONE, n); });
    }
    mc::add("far-aio", cfg(true, 1), [=] { far<Page>(AIO, false); });
    mc::add("far-aio-direct", cfg(true, 1), [=] { far<Page>(AIO, true); });
    mc::add("far-pool", cfg(false, 1), [=] { far<Small>(POOL, false); });
    mc::add("far-none", cfg(true, 1), [=] { far<Odd, 1>(NONE, false); });
    mc::add("many-aio", cfg(true, 4), [=] { many<Page>(AIO, 700); });
    mc::add("many-pool", cfg(false, 4), [=] { many<Small>(POOL, 700); });
    mc::add("many-none", cfg(false, 4), [=] { many<Small>(NONE, 66000); });
    mc::add("many-none-page", cfg(false, 4), [=] { many<Page>(NONE, 66000); });
}
