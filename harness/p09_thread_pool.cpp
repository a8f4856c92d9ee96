// P09: the thread pool runs every accepted task exactly once on every schedule.
#include "mc.h"
#include <sse/schemes/utils/thread_pool.hpp>

#include <array>
#include <memory>

namespace {
using mc::check;

struct Log
{
    std::array<std::atomic<int>, 12> started{};
    std::array<std::atomic<int>, 12> finished{};
    Log()
    {
        for (auto& x : started)
            x = 0;
        for (auto& x : finished)
            x = 0;
    }
};

std::string s(int i)
{
    return std::to_string(i);
}

void expect_all(Log& l, int n, const char* when)
{
    for (int i = 0; i < n; i++) {
        check(l.started[i] == 1, std::string("task ") + s(i) + " ran " + s(l.started[i])
                                     + " times instead of once " + when);
        check(l.finished[i] == 1, std::string("task ") + s(i) + " not finished " + when);
    }
}

int task(Log* l, int i)
{
    l->started[i]++;
    mc::sched_point("task");
    l->finished[i]++;
    return i * 10 + 1;
}

// futures of all tasks, then teardown (0: join then destroy, 1: destroy)
void basic(int workers, int tasks, bool wait_futures, bool do_join)
{
    Log l;
    {
        auto                          pool = std::make_unique<ThreadPool>(workers);
        std::vector<std::future<int>> fs;
        for (int i = 0; i < tasks; i++) {
            fs.push_back(pool->enqueue(task, &l, i));
        }
        if (wait_futures) {
            for (int i = 0; i < tasks; i++) {
                check(fs[i].get() == i * 10 + 1, "a future delivers a wrong value");
                check(l.finished[i] == 1, "a future is ready before its task ended");
            }
        }
        if (do_join) {
            pool->join();
            expect_all(l, tasks, "when join() returned");
        }
        pool.reset();
        expect_all(l, tasks, "when the pool was destroyed");
        if (!wait_futures) {
            for (int i = 0; i < tasks; i++) {
                check(fs[i].wait_for(std::chrono::seconds(0))
                          == std::future_status::ready,
                      "a future is not ready after teardown");
                check(fs[i].get() == i * 10 + 1, "a future delivers a wrong value");
            }
        }
    }
    mc::outcome("ok");
}

void throwing(int workers)
{
    Log l;
    {
        auto pool = std::make_unique<ThreadPool>(workers);
        auto f0   = pool->enqueue([&l]() -> int {
            l.started[0]++;
            l.finished[0]++;
            throw std::logic_error("boom");
        });
        auto f1 = pool->enqueue(task, &l, 1);
        bool threw = false;
        try {
            f0.get();
        } catch (std::logic_error& e) {
            threw = std::string(e.what()) == "boom";
        }
        check(threw, "the exception of a task is not delivered by its future");
        check(f1.get() == 11, "a task after a throwing task is wrong");
        pool.reset();
    }
    expect_all(l, 2, "at the end");
}

// tasks that need each other to progress: every idle worker must be woken
void dependent(int workers, bool wait_between)
{
    Log l;
    {
        auto               pool = std::make_unique<ThreadPool>(workers);
        std::promise<void> p1, p2;
        auto               f1 = p1.get_future();
        auto               f2 = p2.get_future();
        auto               a  = pool->enqueue([&] {
            l.started[0]++;
            p1.set_value();
            f2.wait();
            l.finished[0]++;
        });
        if (wait_between) {
            f1.wait();
        }
        auto b = pool->enqueue([&] {
            l.started[1]++;
            if (!wait_between) {
                f1.wait();
            }
            p2.set_value();
            l.finished[1]++;
        });
        a.get();
        b.get();
        pool.reset();
    }
    expect_all(l, 2, "at the end");
}

// a task submits another one
void nested(int workers)
{
    Log l;
    {
        auto pool  = std::make_unique<ThreadPool>(workers);
        auto outer = pool->enqueue([&] {
            l.started[0]++;
            auto f = pool->enqueue(task, &l, 1);
            l.finished[0]++;
            return f;
        });
        auto inner = outer.get();
        check(inner.get() == 11, "nested task result");
        pool.reset();
    }
    expect_all(l, 2, "at the end");
}

// the pool is joined while tasks which submit, or need, other tasks run
void nested_stop(int workers, int depth, bool destroy)
{
    Log                 l;
    std::array<int, 12> accepted{};
    std::string         out;
    {
        auto                     pool = std::make_unique<ThreadPool>(workers);
        auto*                    q    = pool.get();
        std::function<void(int)> go   = [&](int i) {
            l.started[i]++;
            if (i < depth) {
                try {
                    q->enqueue(go, i + 1);
                    accepted[i + 1] = 1;
                } catch (std::runtime_error&) {
                    accepted[i + 1] = 0;
                }
            }
            l.finished[i]++;
        };
        pool->enqueue(go, 0);
        accepted[0] = 1;
        if (!destroy) {
            pool->join();
        }
        pool.reset();
    }
    for (int i = 0; i <= depth; i++) {
        out += s(accepted[i]);
        check(l.started[i] == accepted[i] && l.finished[i] == accepted[i],
              "nested task " + s(i) + " accepted=" + s(accepted[i]) + " but ran " + s(l.started[i]) + " times");
    }
    mc::outcome(out);
}
void dependent_stop(int workers)
{
    Log l;
    {
        ThreadPool         pool(workers);
        std::promise<void> p1, p2;
        auto               f1 = p1.get_future();
        auto               f2 = p2.get_future();
        auto               a  = pool.enqueue([&] {
            l.started[0]++;
            p1.set_value();
            f2.wait();
            l.finished[0]++;
        });
        auto               b  = pool.enqueue([&] {
            l.started[1]++;
            f1.wait();
            p2.set_value();
            l.finished[1]++;
        });
        pool.join();
    }
    expect_all(l, 2, "when join() returned");
}

// several submitting threads
void submitters(int workers, int n, int each)
{
    Log l;
    {
        auto                     pool = std::make_unique<ThreadPool>(workers);
        std::vector<std::thread> th;
        for (int k = 0; k < n; k++) {
            th.emplace_back([&, k] {
                for (int i = 0; i < each; i++) {
                    auto f = pool->enqueue(task, &l, k * each + i);
                    if (i == 0) {
                        check(f.get() == (k * each + i) * 10 + 1, "wrong result");
                    }
                }
            });
        }
        for (auto& t : th) {
            t.join();
        }
        pool->join();
        expect_all(l, n * each, "when join() returned");
    }
}

// submission racing with join: accepted tasks run, rejected ones do not
void racing_stop(int workers, int tasks)
{
    Log                 l;
    std::array<int, 12> accepted{};
    std::string         out;
    {
        auto        pool = std::make_unique<ThreadPool>(workers);
        std::thread t([&] {
            for (int i = 0; i < tasks; i++) {
                try {
                    auto f      = pool->enqueue(task, &l, i);
                    accepted[i] = 1;
                } catch (std::runtime_error&) {
                    accepted[i] = 0;
                }
            }
        });
        pool->join();
        // tasks accepted before the stop have run now
        t.join();
        bool threw = false;
        try {
            pool->enqueue(task, &l, tasks);
        } catch (std::runtime_error&) {
            threw = true;
        }
        check(threw, "a stopped pool accepts a task");
        pool.reset();
    }
    for (int i = 0; i < tasks; i++) {
        out += s(accepted[i]);
        check(l.started[i] == accepted[i] && l.finished[i] == accepted[i],
              "task " + s(i) + " accepted=" + s(accepted[i]) + " but ran "
                  + s(l.started[i]) + " times");
    }
    check(l.started[tasks] == 0, "a rejected task ran");
    mc::outcome(out);
}

// a worker never runs two tasks at once and one worker runs them in order
void order_single()
{
    Log              l;
    std::vector<int> order;
    {
        auto pool = std::make_unique<ThreadPool>(1);
        for (int i = 0; i < 3; i++) {
            pool->enqueue([&order, i] { order.push_back(i); });
        }
        pool->join();
    }
    check(order == std::vector<int>({0, 1, 2}), "a single worker does not keep the order");
}

// non-copyable arguments and results, reference arguments
void arguments()
{
    auto pool = std::make_unique<ThreadPool>(2);
    int  x    = 3;
    auto f    = pool->enqueue([](int a, int* b) { *b += a; return *b; }, 4, &x);
    auto g    = pool->enqueue([] { return std::make_unique<int>(9); });
    check(f.get() == 7, "argument passing");
    check(*g.get() == 9, "move-only result");
    pool.reset();
    check(x == 7, "side effect");
}
} // namespace

void mc_register()
{
    auto cfg = [](int pb, int shards = 1, bool delay = false) {
        mc::Config c;
        c.managed         = true;
        c.preemptions     = pb;
        c.shards          = shards;
        c.shard_depth     = 8;
        c.symmetric_start = true;
        c.delay_bounded   = delay;
        c.deep            = 1;
        return c;
    };
    const int P  = 2;  // preemption bound, small scenarios
    const int D  = 2;  // delay bound, larger scenarios
    const int S  = mc::tier_pick(1, 8);
    for (int w = 1; w <= 2; w++) {
        for (int t = 1; t <= 2; t++) {
            for (int f = 0; f < 2; f++) {
                for (int j = 0; j < 2; j++) {
                    mc::add("basic-w" + s(w) + "-t" + s(t) + (f ? "-fut" : "")
                                + (j ? "-join" : ""),
                            cfg(w == 1 ? P + 1 : P, S),
                            [=] { basic(w, t, f, j); });
                }
            }
        }
    }
    mc::add("basic-w1-t0", cfg(4), [] { basic(1, 0, false, true); });
    mc::add("basic-w2-t0", cfg(4), [] { basic(2, 0, false, false); });
    mc::add("basic-w3-t3", cfg(D, S, true), [] { basic(3, 3, true, false); });
    mc::add("basic-w3-t4-join", cfg(D, S, true), [] { basic(3, 4, false, true); });
    mc::add("basic-w2-t4", cfg(P, S), [] { basic(2, 4, false, true); });
    mc::add("throwing-w1", cfg(P + 1), [] { throwing(1); });
    mc::add("throwing-w2", cfg(P, S), [] { throwing(2); });
    mc::add("dependent-w2-a", cfg(P, S), [] { dependent(2, false); });
    mc::add("dependent-w2-b", cfg(P, S), [] { dependent(2, true); });
    mc::add("dependent-w3", cfg(D, S, true), [] { dependent(3, true); });
    mc::add("nested-w1", cfg(P + 1, S), [] { nested(1); });
    mc::add("nested-w2", cfg(P, S), [] { nested(2); });
    for (int w = 1; w <= 2; w++) {
        for (int d = 1; d <= 2; d++) {
            for (int x = 0; x < 2; x++) {
                mc::add("nested-stop-w" + s(w) + "-" + s(d) + (x ? "-destroy" : ""), cfg(w == 1 ? P + 1 : P, S),
                        [=] { nested_stop(w, d, x); });
            }
        }
    }
    mc::add("dependent-stop-w2", cfg(P, S), [] { dependent_stop(2); });
    mc::add("submitters-w1", cfg(P, S), [] { submitters(1, 2, 1); });
    mc::add("submitters-w2", cfg(D, S, true), [] { submitters(2, 2, 2); });
    mc::add("racing-stop-w1", cfg(P + 1, S), [] { racing_stop(1, 2); });
    mc::add("racing-stop-w2", cfg(P, S), [] { racing_stop(2, 2); });
    mc::add("order-single", cfg(P + 1, S), [] { order_single(); });
    mc::add("arguments", cfg(P, S), [] { arguments(); });
}
