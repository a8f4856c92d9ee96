// P08: the thread-pool I/O scheduler completes each request exactly once and
// can be destroyed as soon as the wait is over.
#include "mc.h"
#include "model_aio.h"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <array>
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <thread>
#include <unistd.h>

using sse::abstractio::Scheduler;

namespace {
constexpr int kMax = 6;
constexpr int kLen = 24;

std::string s(long i)
{
    return std::to_string(i);
}

struct World
{
    int                                fd = -1;
    std::array<std::array<char, kLen>, kMax> buf;
    std::array<std::atomic<int>, kMax> calls;
    std::array<int64_t, kMax>          res{};
    std::atomic<int>                   returned{0};
    std::unique_ptr<Scheduler>         sch;

    explicit World(int flags = O_RDWR)
    {
        for (auto& c : calls)
            c = 0;
        mc::Unmanaged u;
        kaio::fd_reset();
        std::string p = mc::scratch() + "/pool_data";
        fd            = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        char b[kLen];
        for (int i = 0; i < 4; i++) {
            memset(b, 'a' + i, kLen);
            ::pwrite(fd, b, kLen, i * kLen);
        }
        if (flags != O_RDWR) {
            ::close(fd);
            fd = ::open(p.c_str(), flags);
        }
        sch.reset(sse::abstractio::make_thread_pool_aio_scheduler());
    }
    Scheduler::scheduler_callback_type cb(int i, std::function<void()> more = nullptr)
    {
        return [this, i, more](void* d, int64_t r) {
            MC_CHECK(d == buf[i].data(), "a callback got another request's data pointer");
            calls[i]++;
            res[i] = r;
            if (more) {
                more();
            }
            mc::sched_point("callback");
            returned++;
        };
    }
    void read(int i, int block, std::function<void()> more = nullptr)
    {
        int r = sch->submit_pread(fd, buf[i].data(), kLen, block * kLen, buf[i].data(),
                                  cb(i, more));
        MC_CHECK(r == 1, "a read is not accepted");
    }
    void write(int i, int block)
    {
        memset(buf[i].data(), 'A' + i, kLen);
        int r = sch->submit_pwrite(fd, buf[i].data(), kLen, block * kLen, buf[i].data(), cb(i));
        MC_CHECK(r == 1, "a write is not accepted");
    }
    void done(int n, const char* when)
    {
        for (int i = 0; i < kMax; i++) {
            MC_CHECK(calls[i] == (i < n ? 1 : 0), "the callback of request " + s(i) + " ran "
                                                      + s(calls[i]) + " times " + when);
        }
        MC_CHECK(returned == n, std::string("a callback was still running ") + when);
    }
    void has(int i, int block)
    {
        MC_CHECK(res[i] == kLen, "request " + s(i) + " reports " + s(res[i]) + " bytes");
        for (char c : buf[i]) {
            MC_CHECK(c == 'a' + block, "request " + s(i) + " read wrong bytes");
        }
    }
    void file(int block, char c)
    {
        mc::Unmanaged u;
        char          b[kLen];
        ::pread(fd, b, kLen, block * kLen);
        for (char x : b) {
            MC_CHECK(x == c, "the file does not hold what was written");
        }
    }
};

// ops: r read, w write (of block i)
void simple(const std::string& ops, bool wait)
{
    World w;
    for (size_t i = 0; i < ops.size(); i++) {
        if (ops[i] == 'r') {
            w.read(i, i);
        } else {
            w.write(i, i);
        }
    }
    if (wait) {
        w.sch->wait_completions();
        w.done(ops.size(), "when wait_completions() returned");
    }
    w.sch.reset();
    w.done(ops.size(), "when the scheduler was destroyed");
    for (size_t i = 0; i < ops.size(); i++) {
        if (ops[i] == 'r') {
            w.has(i, i);
        } else {
            MC_CHECK(w.res[i] == kLen, "a write reports " + s(w.res[i]) + " bytes");
            w.file(i, 'A' + i);
        }
    }
    std::string o;
    mc::outcome(ops);
}

// waiting, then more requests, then waiting again
void twice()
{
    World w;
    w.read(0, 1);
    w.sch->wait_completions();
    w.done(1, "after the first wait");
    w.read(1, 2);
    w.sch->wait_completions();
    w.done(2, "after the second wait");
    w.sch.reset();
    w.has(0, 1);
    w.has(1, 2);
}

void batch(int n)
{
    World                                  w;
    std::vector<Scheduler::PReadSumission> v;
    for (int i = 0; i < n; i++) {
        v.emplace_back(w.fd, w.buf[i].data(), kLen, i * kLen, w.buf[i].data(), w.cb(i));
    }
    MC_CHECK(w.sch->submit_preads(v) == n, "a batch is not accepted");
    w.sch->wait_completions();
    w.done(n, "after the wait");
    w.sch.reset();
    for (int i = 0; i < n; i++) {
        w.has(i, i);
    }
}

void submitters(int per)
{
    World       w;
    std::thread t([&] {
        for (int i = 0; i < per; i++)
            w.read(i, i);
    });
    for (int i = 0; i < per; i++) {
        w.read(per + i, i);
    }
    t.join();
    w.sch->wait_completions();
    w.done(2 * per, "after the wait");
    w.sch.reset();
    for (int i = 0; i < per; i++) {
        w.has(i, i);
        w.has(per + i, i);
    }
}

// two threads submit and wait
void waiters(const std::string& a, const std::string& b)
{
    World w;
    auto  job = [&](const std::string& ops, size_t first) {
        for (size_t i = 0; i < ops.size(); i++) {
            if (ops[i] == 'r')
                w.read(first + i, i);
            else
                w.write(first + i, first + i);
        }
        w.sch->wait_completions();
        for (size_t i = 0; i < ops.size(); i++)
            MC_CHECK(w.calls[first + i] == 1, "the wait ended before the callback of this thread's request");
    };
    std::thread t([&] { job(a, 0); });
    job(b, a.size());
    t.join();
    w.done(a.size() + b.size(), "after both waits");
    w.sch.reset();
}

// several schedulers share the workers
void two_schedulers()
{
    World                      w;
    std::unique_ptr<Scheduler> other(w.sch->duplicate());
    w.read(0, 0);
    std::swap(other, w.sch);
    w.read(1, 1);
    w.sch->wait_completions();
    MC_CHECK(w.calls[1] == 1, "the wait ended before the callback");
    w.sch.reset();
    other.reset();
    w.done(2, "after both schedulers were destroyed");
    w.has(0, 0);
    w.has(1, 1);
}

// a callback submits the next request
void chained()
{
    World w;
    w.read(0, 0, [&w] { w.read(1, 1); });
    w.sch->wait_completions();
    w.done(2, "after the wait (chained)");
    w.sch.reset();
    w.has(0, 0);
    w.has(1, 1);
}

// failing and short transfers are reported as the kernel reports them
void failing()
{
    World w(O_RDONLY);
    int   pre  = w.sch->submit_pread(w.fd, w.buf[0].data(), kLen, 4 * kLen - 10,
                                  w.buf[0].data(), w.cb(0));
    memset(w.buf[1].data(), 'x', kLen);
    int   pw = w.sch->submit_pwrite(w.fd, w.buf[1].data(), kLen, 0, w.buf[1].data(), w.cb(1));
    MC_CHECK(pre == 1 && pw == 1, "a request is not accepted");
    w.sch->wait_completions();
    w.done(2, "after the wait (failing)");
    MC_CHECK(w.res[0] == 10, "a short read reports " + s(w.res[0]) + " instead of 10");
    MC_CHECK(w.res[1] < 0, "a failed write reports " + s(w.res[1]));
    w.sch.reset();
    w.file(0, 'a');
}
void at_end()
{
    World w;
    w.read(0, 4);
    w.read(1, 100);
    w.sch->wait_completions();
    w.done(2, "after the wait (reads past the end)");
    MC_CHECK(w.res[0] == 0 && w.res[1] == 0, "a read past the end reports " + s(w.res[0]) + ", " + s(w.res[1]));
    w.sch.reset();
}
} // namespace

void mc_register()
{
    sse::logger::logger()->debug("started");
    auto cfg = [](int pb, int threads = 2) {
        mc::Config c;
        c.managed         = true;
        c.preemptions     = pb;
        c.shards          = 8;
        c.shard_depth     = 8;
        c.deep            = 1;
        c.forked          = true;
        c.allow_leftover  = true;
        c.symmetric_start = true;
        c.max_threads     = threads;
        return c;
    };
    for (int wait = 0; wait < 2; wait++) {
        std::string t = wait ? "-wait" : "-destroy";
        for (auto ops : {"", "r", "w"}) {
            mc::add(std::string("simple") + t + "-" + ops, cfg(1), [=] { simple(ops, wait); });
        }
        for (auto ops : {"rr", "rw", "ww"}) {
            mc::add(std::string("simple") + t + "-" + ops, cfg(1), [=] { simple(ops, wait); });
        }
    }
    mc::add("one-worker-rr", cfg(2, 1), [=] { simple("rr", true); });
    mc::add("three-workers-rwr", cfg(0, 3), [=] { simple("rwr", true); });
    mc::add("twice", cfg(1), [] { twice(); });
    mc::add("batch-2", cfg(1), [] { batch(2); });
    mc::add("batch-3", cfg(0), [] { batch(3); });
    mc::add("submitters-1", cfg(1, 2), [] { submitters(1); });
    mc::add("submitters-2", cfg(0, 3), [] { submitters(2); });
    for (auto ops : {"r-", "w-", "r-r", "w-w"}) {
        std::string o = ops, a = o.substr(0, o.find('-')), b = o.substr(o.find('-') + 1);
        mc::add("waiters-" + o, cfg(1, 1), [=] { waiters(a, b); });
    }
    mc::add("waiters-r-w-two-workers", cfg(0, 2), [] { waiters("r", "w"); });
    mc::add("two-schedulers", cfg(1), [] { two_schedulers(); });
    mc::add("chained", cfg(1), [] { chained(); });
    mc::add("failing", cfg(1), [] { failing(); });
    mc::add("past-the-end", cfg(1), [] { at_end(); });
}
