// P07: the libaio scheduler on a model kernel: each accepted request completes
// exactly once, rejected ones never, waiting terminates.
#include "mc.h"
#include "model_aio.h"

#include <sse/schemes/abstractio/scheduler.hpp>

#include <array>
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <thread>
#include <unistd.h>


using sse::abstractio::Scheduler;

namespace {
constexpr size_t kPage  = 512;
constexpr int    kPages = 8;
constexpr int    kMax   = 12;

alignas(4096) char g_buf[kMax][kPage];
int g_fd = -1;

std::string s(long i)
{
    return std::to_string(i);
}

struct Slot
{
    int  id;
    int  ret    = 0;      // what the submission said (1: accepted)
    bool known  = false;  // single submission: ret is about this request alone
    bool ok_arg = true;   // well-formed
    bool write  = false;
    int  off    = 0;      // in pages
    std::atomic<int> calls{0};
    int64_t          res = 0;
};

struct World
{
    std::array<Slot, kMax>     slot;
    std::unique_ptr<Scheduler> sch;
    std::atomic<int>           returned{0}; // callbacks that returned

    World()
    {
        for (int i = 0; i < kMax; i++)
            slot[i].id = i;
    }

    Scheduler::scheduler_callback_type cb(int i, std::function<void()> more = nullptr)
    {
        return [this, i, more](void* data, int64_t res) {
            MC_CHECK(data == &slot[i], "a callback got the data pointer of another request");
            slot[i].calls++;
            slot[i].res = res;
            if (more) {
                more();
            }
            mc::sched_point("callback");
            returned++;
        };
    }
    int read(int i, int page, std::function<void()> more = nullptr)
    {
        slot[i].off   = page;
        slot[i].known = true;
        int r = sch->submit_pread(g_fd, g_buf[i], kPage, page * kPage, &slot[i], cb(i, more));
        slot[i].ret = r;
        return r;
    }
    int write(int i, int page)
    {
        slot[i].off   = page;
        slot[i].known = true;
        slot[i].write = true;
        memset(g_buf[i], 'A' + i, kPage);
        int r = sch->submit_pwrite(g_fd, g_buf[i], kPage, page * kPage, &slot[i], cb(i));
        slot[i].ret = r;
        return r;
    }

    // after wait_completions() returned and no submission is in progress
    void verify()
    {
        std::array<int, kMax> seen{};
        for (auto& r : kaio::log()) {
            int id = -1;
            for (int i = 0; i < kMax; i++) {
                if (r.buf == g_buf[i])
                    id = i;
            }
            MC_CHECK(id >= 0, "the kernel got a request with a buffer nobody submitted");
            seen[id]++;
            MC_CHECK(r.delivered, "request " + s(id) + " was still pending when the wait ended");
            MC_CHECK(r.off == static_cast<int64_t>(slot[id].off * kPage) && r.len == kPage
                      && r.fd == g_fd && r.write == slot[id].write,
                  "request " + s(id) + " reached the kernel with other parameters");
            MC_CHECK(slot[id].calls == 1, "the callback of accepted request " + s(id) + " ran "
                                           + s(slot[id].calls) + " times");
            MC_CHECK(slot[id].res == r.result, "request " + s(id) + " was told the result "
                                                + s(slot[id].res) + " instead of "
                                                + s(r.result));
        }
        int calls = 0;
        for (auto& x : slot) {
            MC_CHECK(seen[x.id] <= 1, "request " + s(x.id) + " reached the kernel twice");
            if (seen[x.id] == 0) {
                MC_CHECK(x.calls == 0, "the callback of request " + s(x.id)
                                        + ", which was not performed, ran");
            }
            if (x.known) {
                MC_CHECK(x.calls == (x.ret == 1 ? 1 : 0),
                      "submission " + s(x.id) + " returned " + s(x.ret) + " but its callback ran "
                          + s(x.calls) + " times");
            }
            calls += x.calls;
        }
        MC_CHECK(returned == calls, "a callback was still running when the wait ended");
    }
    void content(int i, bool full_result = true)
    {
        if (slot[i].calls == 1 && slot[i].res == static_cast<int64_t>(kPage) && !slot[i].write) {
            for (size_t k = 0; k < kPage; k++) {
                MC_CHECK(g_buf[i][k] == static_cast<char>('a' + slot[i].off),
                      "request " + s(i) + " delivered wrong bytes");
            }
        }
    }
    std::string results()
    {
        std::string r;
        for (auto& x : slot)
            r += s(x.ret) + ":" + s(x.calls) + ":" + s(x.res) + " ";
        return r;
    }
};

void setup(const kaio::Options& o)
{
    mc::Unmanaged u;
    kaio::fd_reset();
    kaio::reset(o);
    if (g_fd < 0) {
        std::string p = mc::scratch() + "/aio_data";
        g_fd          = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    }
    char b[kPage];
    for (int i = 0; i < kPages; i++) {
        memset(b, 'a' + i, kPage);
        ::pwrite(g_fd, b, kPage, i * kPage);
    }
    memset(g_buf, 0, sizeof g_buf);
}

std::unique_ptr<Scheduler> fresh(unsigned n = 128)
{
    return std::unique_ptr<Scheduler>(sse::abstractio::make_linux_aio_scheduler(kPage, n));
}

void finish(World& w)
{
    w.sch->wait_completions();
    w.verify();
    MC_CHECK(w.sch->submit_pread(g_fd, g_buf[11], kPage, 0, &w.slot[11], w.cb(11)) < 0,
          "a read submitted after the wait is not rejected");
    MC_CHECK(w.sch->submit_pwrite(g_fd, g_buf[11], kPage, 0, &w.slot[11], w.cb(11)) < 0,
          "a write submitted after the wait is not rejected");
    std::vector<Scheduler::PReadSumission> v;
    v.emplace_back(g_fd, g_buf[11], kPage, 0, &w.slot[11], w.cb(11));
    MC_CHECK(w.sch->submit_preads(v) < 0, "a batch submitted after the wait is not rejected");
    w.sch.reset();
    MC_CHECK(kaio::contexts_alive() == 0, "the AIO context is not destroyed");
    w.verify();
    mc::outcome(w.results());
}

void singles(const kaio::Options& o, int n, bool writes)
{
    setup(o);
    World w;
    w.sch = fresh();
    for (int i = 0; i < n; i++) {
        if (writes && i % 2 == 0) {
            w.write(i, i);
        } else {
            w.read(i, i);
        }
        if (!o.submit_error) {
            MC_CHECK(w.slot[i].ret == 1, "a well-formed request is not accepted");
        }
    }
    finish(w);
    for (int i = 0; i < n; i++) {
        w.content(i);
        if (w.slot[i].write && w.slot[i].calls && w.slot[i].res == (int)kPage) {
            char b[kPage];
            MC_CHECK(::pread(g_fd, b, kPage, i * kPage) == (int)kPage && b[0] == 'A' + i
                      && b[kPage - 1] == 'A' + i,
                  "a completed write is not in the file");
        }
    }
}

// kinds: 0 well-formed 1 bad buffer 2 bad length 3 bad offset 4 bad descriptor
void batch(const kaio::Options& o, std::vector<int> kinds, int extra = 0)
{
    setup(o);
    World w;
    w.sch = fresh();
    std::vector<Scheduler::PReadSumission> v;
    int                                    good = 0, badfd = 0;
    for (size_t i = 0; i < kinds.size(); i++) {
        w.slot[i].off    = i;
        w.slot[i].ok_arg = kinds[i] == 0;
        good += kinds[i] == 0;
        badfd += kinds[i] == 4;
        v.emplace_back(kinds[i] == 4 ? -1 : g_fd, g_buf[i] + (kinds[i] == 1 ? 16 : 0),
                       kPage - (kinds[i] == 2 ? 100 : 0), i * kPage + (kinds[i] == 3 ? 7 : 0),
                       &w.slot[i], w.cb(i));
    }
    int ret = w.sch->submit_preads(v);
    for (int k = 0; k < extra; k++) {
        w.read(8 + k, k);
    }
    finish(w);
    int calls = 0;
    for (size_t i = 0; i < kinds.size(); i++) {
        calls += w.slot[i].calls;
        MC_CHECK(w.slot[i].calls == 0 || w.slot[i].ok_arg,
              "the callback of a rejected request of a batch ran");
        w.content(i);
    }
    MC_CHECK(calls == (ret > 0 ? ret : 0), "a batch reported " + s(ret) + " accepted requests but "
                                            + s(calls) + " callbacks ran");
    if (!o.submit_error && badfd == 0) {
        MC_CHECK(ret == good, "a batch with " + s(good) + " well-formed requests accepted " + s(ret));
    }
}

void threads(const kaio::Options& o, int n, int per, bool batches)
{
    setup(o);
    World w;
    w.sch = fresh();
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) {
        ts.emplace_back([&w, t, per, batches] {
            if (batches) {
                std::vector<Scheduler::PReadSumission> v;
                for (int k = 0; k < per; k++) {
                    int i         = t * per + k;
                    w.slot[i].off = i % kPages;
                    v.emplace_back(g_fd, g_buf[i], kPage, (i % kPages) * kPage, &w.slot[i],
                                   w.cb(i));
                }
                MC_CHECK(w.sch->submit_preads(v) == per, "a well-formed batch is not accepted");
            } else {
                for (int k = 0; k < per; k++) {
                    int i = t * per + k;
                    MC_CHECK(w.read(i, i % kPages) == 1, "a well-formed read is not accepted");
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    finish(w);
    for (int i = 0; i < n * per; i++) {
        MC_CHECK(w.slot[i].calls == 1, "an accepted request was not completed");
        w.content(i);
    }
}

// a submission races with the wait: accepted and completed, or rejected
void submit_vs_wait(const kaio::Options& o, int per, bool batches, bool writes = false)
{
    setup(o);
    World w;
    w.sch = fresh();
    w.read(8, 0);
    std::thread t([&] {
        if (batches) {
            std::vector<Scheduler::PReadSumission> v;
            for (int i = 0; i < per; i++) {
                w.slot[i].off = i;
                v.emplace_back(g_fd, g_buf[i], kPage, i * kPage, &w.slot[i], w.cb(i));
            }
            w.slot[9].ret = w.sch->submit_preads(v);
        } else {
            for (int i = 0; i < per; i++) {
                if (writes)
                    w.write(i, i);
                else
                    w.read(i, i);
            }
        }
    });
    w.sch->wait_completions();
    MC_CHECK(w.slot[8].calls == 1 && w.returned >= 1,
          "a request accepted before the wait was not completed when it ended");
    t.join();
    // whatever was accepted is completed by now or never will be
    int calls = 0;
    for (int i = 0; i < per; i++) {
        calls += w.slot[i].calls;
    }
    if (batches) {
        MC_CHECK(calls == (w.slot[9].ret > 0 ? w.slot[9].ret : 0),
              "a batch racing with the wait reported " + s(w.slot[9].ret) + " but "
                  + s(calls) + " callbacks ran");
    }
    w.verify();
    w.sch.reset();
    mc::outcome(w.results());
}

// transfers at and past the end of the file: short or empty, and told so
void at_end(const kaio::Options& o, bool batches)
{
    setup(o);
    MC_CHECK(::ftruncate(g_fd, (kPages - 1) * kPage + 512) == 0, "ftruncate");
    World w;
    w.sch                  = fresh();
    static const int pg[]  = {kPages, kPages - 1, 0, kPages + 5};
    static const int res[] = {0, 512, (int)kPage, 0};
    if (batches) {
        std::vector<Scheduler::PReadSumission> v;
        for (int i = 0; i < 4; i++) {
            w.slot[i].off = pg[i];
            v.emplace_back(g_fd, g_buf[i], kPage, pg[i] * kPage, &w.slot[i], w.cb(i));
        }
        MC_CHECK(w.sch->submit_preads(v) == 4, "a well-formed batch is not accepted");
    } else {
        for (int i = 0; i < 4; i++)
            MC_CHECK(w.read(i, pg[i]) == 1, "a well-formed read is not accepted");
    }
    finish(w);
    for (int i = 0; i < 4; i++) {
        MC_CHECK(w.slot[i].calls == 1 && w.slot[i].res == res[i],
                 "a read of page " + s(pg[i]) + " of a shorter file reports " + s(w.slot[i].res));
    }
}

// two submitters, the kernel refuses some of the requests for good
void threads_refused(const kaio::Options& o)
{
    setup(o);
    World       w;
    w.sch = fresh();
    w.read(2, 2);
    std::thread t([&] { w.read(0, 0); });
    w.read(1, 1);
    t.join();
    finish(w);
    for (int i = 0; i < 3; i++)
        w.content(i);
}

// a callback submits another request
void chained(const kaio::Options& o)
{
    setup(o);
    World w;
    w.sch = fresh();
    w.read(0, 0, [&w] { w.read(1, 1, [&w] { w.read(2, 2); }); });
    // give the chain its end before waiting: later submissions may be refused
    mc::block_until([&w] { return w.slot[2].calls == 1; }, "chain");
    finish(w);
    for (int i = 0; i < 3; i++) {
        MC_CHECK(w.slot[i].calls == 1, "a chained request was not completed");
        w.content(i);
    }
}

void misaligned()
{
    setup(kaio::Options());
    World w;
    w.sch  = fresh();
    auto* p = w.sch.get();
    auto  c = [&](int i) { return w.cb(i); };
    // every combination of misaligned buffer, length and offset
    for (int m = 1; m < 8; m++) {
        void* b = g_buf[10] + (m & 1 ? 8 : 0);
        size_t l = kPage - (m & 2 ? 1 : 0);
        off_t  f = kPage + (m & 4 ? 100 : 0);
        MC_CHECK(p->submit_pread(g_fd, b, l, f, &w.slot[10], c(10)) < 0,
              "a misaligned read is accepted");
        MC_CHECK(p->submit_pwrite(g_fd, b, l, f, &w.slot[10], c(10)) < 0,
              "a misaligned write is accepted");
    }
    MC_CHECK(kaio::log().empty(), "a misaligned request reached the kernel");
    MC_CHECK(w.read(0, 3) == 1, "a well-formed read after rejected ones is not accepted");
    finish(w);
    MC_CHECK(w.slot[0].calls == 1, "read lost");
    w.content(0);
}

void destroy_only(const kaio::Options& o, int n)
{
    setup(o);
    World w;
    w.sch = fresh();
    std::unique_ptr<Scheduler> dup(w.sch->duplicate());
    for (int i = 0; i < n; i++) {
        MC_CHECK(w.read(i, i) == 1, "a well-formed read is not accepted");
    }
    std::swap(dup, w.sch);
    MC_CHECK(w.read(n, 1) == 1, "a duplicate refuses a read");
    std::swap(dup, w.sch);
    w.sch.reset();
    for (int i = 0; i < n; i++) {
        MC_CHECK(w.slot[i].calls == 1, "destruction did not wait for request " + s(i));
        w.content(i);
    }
    dup->wait_completions();
    dup->wait_completions(); // idempotent
    w.verify();
    dup.reset();
    MC_CHECK(kaio::contexts_alive() == 0, "an AIO context is not destroyed");
    mc::outcome(w.results());
}
} // namespace

void mc_register()
{
    auto cfg = [](int pb, int shards = 1) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pb;
        c.shards      = shards;
        c.shard_depth = 8;
        c.deep        = 1;
        return c;
    };
    auto opt = [](int capacity, bool partial = false) {
        kaio::Options o;
        o.capacity = capacity;
        o.partial  = partial;
        return o;
    };
    const int P = 2;
    const int Q = 2;
    const int S = 8;
    mc::add("idle", cfg(3), [=] { singles(opt(8), 0, false); });
    mc::add("misaligned", cfg(Q), [=] { misaligned(); });
    for (int n = 1; n <= 3; n++) {
        for (int cap : {1, 2, 8}) {
            if (cap > n && cap != 8)
                continue;
            std::string t = "-n" + s(n) + "-cap" + s(cap);
            mc::add("reads" + t, cfg(n <= 2 ? Q : P, S), [=] { singles(opt(cap), n, false); });
            mc::add("writes" + t, cfg(P, S), [=] { singles(opt(cap), n, true); });
            if (n >= 2) {
                mc::add("batch" + t, cfg(n <= 2 ? Q : P, S),
                        [=] { batch(opt(cap, true), std::vector<int>(n, 0)); });
            }
        }
    }
    mc::add("batch-empty", cfg(Q), [=] { batch(opt(4), {}); });
    for (int bad = 1; bad <= 4; bad++) {
        mc::add("batch-bad-first-" + s(bad), cfg(P, S), [=] { batch(opt(4), {bad, 0, 0}, 1); });
        mc::add("batch-bad-mid-" + s(bad), cfg(P, S), [=] { batch(opt(2), {0, bad, 0}, 1); });
        mc::add("batch-bad-last-" + s(bad), cfg(P, S), [=] { batch(opt(4), {0, bad}); });
    }
    for (int f = 0; f < 3; f++) {
        auto o         = opt(2);
        o.faults       = mc::tier_pick(1, 2);
        o.eintr        = f == 0;
        o.submit_error = f == 1;
        o.io_error     = f == 2;
        static const char* nm[] = {"eintr", "submit-error", "io-error"};
        mc::add(std::string("fault-singles-") + nm[f], cfg(P, S), [=] { singles(o, 2, true); });
        mc::add(std::string("fault-batch-") + nm[f], cfg(P, S), [=] { batch(o, {0, 0, 0}); });
        auto o2    = o;
        o2.partial = true;
        mc::add(std::string("fault-batch-partial-") + nm[f], cfg(P, S),
                [=] { batch(o2, {0, 0, 0}); });
    }
    for (int cap : {1, 2, 8}) {
        std::string t = "-cap" + s(cap);
        mc::add("threads2" + t, cfg(P, S), [=] { threads(opt(cap), 2, 1, false); });
        mc::add("threads2-batch" + t, cfg(1, S), [=] { threads(opt(cap), 2, 2, true); });
        mc::add("race-wait" + t, cfg(Q, S), [=] { submit_vs_wait(opt(cap), 1, false); });
        mc::add("race-wait-write" + t, cfg(Q, S), [=] { submit_vs_wait(opt(cap), 1, false, true); });
        mc::add("race-wait-batch" + t, cfg(P, S), [=] { submit_vs_wait(opt(cap), 2, true); });
    }
    for (int b = 0; b < 2; b++) {
        mc::add(std::string("past-the-end") + (b ? "-batch" : ""), cfg(1, S), [=] { at_end(opt(8), b); });
        mc::add(std::string("past-the-end-full") + (b ? "-batch" : ""), cfg(1, S), [=] { at_end(opt(2, true), b); });
    }
    for (int cap : {1, 2}) {
        auto o         = opt(cap);
        o.submit_error = true;
        o.faults       = 1;
        mc::add("threads2-refused-cap" + s(cap), cfg(1, S), [=] { threads_refused(o); });
    }
    mc::add("chained", cfg(P, S), [=] { chained(opt(4)); });
    mc::add("destroy-only", cfg(P, S), [=] { destroy_only(opt(2), 2); });
    if (mc::thorough()) {
        mc::add("threads3-cap1", cfg(1, S), [=] { threads(opt(1), 3, 1, false); });
        mc::add("threads2x2-cap1", cfg(1, S), [=] { threads(opt(1), 2, 2, false); });
        mc::add("batch4-cap2", cfg(1, S), [=] { batch(opt(2, true), {0, 0, 0, 0}); });
    }
}
