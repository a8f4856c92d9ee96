// P02: concurrent operations on one counter store, on every schedule: the
// results are those of some sequential order of the operations.
#include "mem_db.h"
#include "mc.h"

#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/rocksdb_wrapper.hpp>

#include <algorithm>
#include <iostream>
#include <map>
#include <thread>

namespace {
using sse::sophos::RocksDBCounter;
std::string s(size_t i)
{
    return std::to_string(i);
}
struct Op
{
    int         kind; // 0 get_and_increment, 1 increment, 2 set, 3 remove, 4 get
    std::string key;
    // result
    bool     ok  = false;
    uint32_t val = 0;
    std::string str() const
    {
        static const char* n[] = {"get_and_increment", "increment", "set", "remove", "get"};
        return std::string(n[kind]) + "(" + key + ")" + (kind == 0 || kind == 4 ? "=" + (ok ? s(val) : std::string("-")) : "");
    }
};
constexpr uint32_t kSet = 40, kDefault = 7;
using State = std::map<std::string, uint32_t>;
// applies op to the model; false: its result does not fit
bool step(const Op& o, State& st)
{
    auto it = st.find(o.key);
    switch (o.kind) {
    case 0: {
        uint32_t v = it == st.end() ? 0 : it->second + 1;
        st[o.key]  = v;
        return o.ok && o.val == v;
    }
    case 1:
        st[o.key] = it == st.end() ? kDefault : it->second + 1;
        return o.ok;
    case 2:
        st[o.key] = kSet;
        return o.ok;
    case 3:
        st.erase(o.key);
        return o.ok;
    default:
        return it == st.end() ? !o.ok : o.ok && o.val == it->second;
    }
}
bool linear(const std::vector<std::vector<Op>>& th, std::vector<size_t> at, const State& st, const State& end)
{
    bool left = false;
    for (size_t t = 0; t < th.size(); t++) {
        if (at[t] == th[t].size())
            continue;
        left    = true;
        State n = st;
        if (!step(th[t][at[t]], n))
            continue;
        at[t]++;
        if (linear(th, at, n, end))
            return true;
        at[t]--;
    }
    return !left && st == end;
}

void run(std::vector<int> ops, int kinds, bool two_keys)
{
    std::unique_ptr<RocksDBCounter> c;
    std::vector<std::vector<Op>>    th(ops.size());
    State                           start;
    {
        int n = 0;
        for (size_t t = 0; t < ops.size(); t++) {
            for (int i = 0; i < ops[t]; i++) {
                Op o;
                o.kind = mc::choose(kinds, "operation");
                o.key  = two_keys && (n++ % 2) ? "b" : "a";
                th[t].push_back(o);
            }
        }
        bool          init = mc::flip("present");
        mc::Unmanaged u;
        memdb::forget();
        c = std::make_unique<RocksDBCounter>(mc::scratch() + "/counter");
        if (init) {
            start["a"] = 10;
            c->set("a", 10);
        }
    }
    std::vector<std::thread> v;
    for (size_t t = 0; t < ops.size(); t++) {
        v.emplace_back([&, t] {
            for (Op& o : th[t]) {
                switch (o.kind) {
                case 0:
                    o.ok = c->get_and_increment(o.key, o.val);
                    break;
                case 1:
                    o.ok = c->increment(o.key, kDefault);
                    break;
                case 2:
                    o.ok = c->set(o.key, kSet);
                    break;
                case 3:
                    o.ok = c->remove_key(o.key);
                    break;
                case 4:
                    o.ok = c->get(o.key, o.val);
                    break;
                }
            }
        });
    }
    for (auto& t : v)
        t.join();
    mc::Unmanaged u;
    State         end;
    for (const char* k : {"a", "b"}) {
        uint32_t x;
        if (c->get(k, x))
            end[k] = x;
    }
    std::string o;
    for (auto& t : th) {
        for (auto& x : t)
            o += x.str() + " ";
        o += "| ";
    }
    for (auto& kv : end)
        o += kv.first + ":" + s(kv.second) + " ";
    MC_CHECK(linear(th, std::vector<size_t>(th.size(), 0), start, end),
             "no order of these operations explains their results: " + o);
    mc::outcome(o);
    mc::validated();
    c.reset();
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    sse::logger::logger()->debug("started");
    auto add = [](const std::string& n, int pre, int deep, int sd, std::function<void()> f) {
        mc::Config c;
        c.managed     = true;
        c.preemptions = pre;
        c.shards      = 16;
        c.shard_depth = sd;
        c.deep        = deep - pre;
        mc::add(n, c, f);
    };
    add("2 threads, 1 operation each", 3, 6, 3, [] { run({1, 1}, 5, false); });
    add("2 threads, 2 and 1 operations", 2, 4, 3, [] { run({2, 1}, 5, false); });
    add("2 threads, 2 operations each", 1, 3, 3, [] { run({2, 2}, 5, false); });
    add("3 threads, 1 operation each", 1, 2, 3, [] { run({1, 1, 1}, 5, false); });
    add("2 threads, 2 keys", 2, 3, 3, [] { run({2, 2}, 2, true); });
    add("2 threads, 3 increments each", 2, 4, 3, [] { run({3, 3}, 1, false); });
}
