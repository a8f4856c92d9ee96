// P02: persistent counters count exactly, over every short history and every
// pattern of failing store accesses.
#include "store_common.h"

namespace {
using namespace store;
using sse::sophos::RocksDBCounter;

struct Reset
{
    ~Reset()
    {
        faultdb::g_fault = nullptr;
    }
};

const std::string& key(int k)
{
    static const std::string ks[] = {std::string("kw"), std::string("kw\0", 3), std::string(""),
                                     std::string("\xff\xff")};
    return ks[k];
}

struct Model
{
    std::map<int, uint32_t> m;
};

void compare(const RocksDBCounter& db, const Model& m, const std::string& at)
{
    for (int k = 0; k < 4; k++) {
        uint32_t v  = 0xABABABAB;
        bool     f  = db.get(key(k), v);
        auto     it = m.m.find(k);
        MC_CHECK(f == (it != m.m.end()),
                 std::string(f ? "an absent counter is found" : "a counter is missed") + " (key " + s(k) + ")" + at);
        MC_CHECK(!f || v == it->second,
                 "a counter is " + s(v) + " instead of " + (f ? s(it->second) : std::string()) + " (key " + s(k) + ")" + at);
        mc::validated();
    }
}

// ops on one key: 0 get_and_increment, 1 increment, 2 increment from 5, 3 set,
// 4 remove, 5 get
bool op_on(RocksDBCounter& db, Model& m, int k, int op, uint32_t setval, bool may_fail, std::string& tr)
{
    static const char* nm[] = {"get_and_increment", "increment", "increment(5)", "set", "remove", "get"};
    tr += std::string(" ") + nm[op] + s(k);
    uint64_t before = faultdb::g_failed;
    auto     it     = m.m.find(k);
    bool     has    = it != m.m.end();
    uint32_t next   = has ? it->second + 1 : (op == 2 ? 5 : 0);
    uint32_t v      = 0xABABABAB;
    bool     ok     = true;
    switch (op) {
    case 0:
        ok = db.get_and_increment(key(k), v);
        break;
    case 1:
        ok = db.increment(key(k));
        break;
    case 2:
        ok = db.increment(key(k), 5);
        break;
    case 3:
        ok   = db.set(key(k), setval);
        next = setval;
        break;
    case 4:
        ok = db.remove_key(key(k));
        break;
    case 5:
        ok = db.get(key(k), v);
        break;
    }
    bool        failed = faultdb::g_failed != before;
    std::string at     = " [" + tr + "]";
    if (op == 5) {
        MC_CHECK(!failed || !ok, "a lookup succeeds although the store could not be read" + at);
        MC_CHECK(failed || ok == has, "a lookup is wrong" + at);
        MC_CHECK(!ok || v == m.m[k], "a lookup returns a wrong counter" + at);
        return ok;
    }
    MC_CHECK(!failed || !ok, std::string(nm[op]) + " reports success although a store access failed" + at);
    MC_CHECK(failed || ok, std::string(nm[op]) + " fails for no reason" + at);
    if (ok) {
        if (op == 4) {
            m.m.erase(k);
        } else {
            m.m[k] = next;
        }
        MC_CHECK(op != 0 || v == next,
                 "get_and_increment hands out " + s(v) + " instead of " + s(next) + at);
    }
    return ok;
}

void history(int depth, int faults, int nkeys)
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    Reset       reset;
    auto        db = std::make_unique<RocksDBCounter>(dir);
    Model       m;
    std::string tr;
    int         left = faults;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(2 + 6 * nkeys, "op");
        mc::transitions();
        if (op == 0) {
            tr += " reopen";
            db.reset();
            db = std::make_unique<RocksDBCounter>(dir);
        } else if (op == 1) {
            tr += " flush";
            db->flush(i % 2);
        } else {
            faultdb::g_fault = [&](bool write) {
                int n = left > 0 ? mc::choose(write ? 2 : 3, "fault") : 0;
                if (n) {
                    left--;
                    tr += write ? " !write" : " !read";
                }
                return n;
            };
            op_on(*db, m, (op - 2) / 6, (op - 2) % 6, 40 + i, true, tr);
            faultdb::g_fault = nullptr;
        }
        compare(*db, m, " [" + tr + "]");
        std::string st = s(i);
        for (auto& x : m.m) {
            st += "," + s(x.first) + "=" + s(x.second);
        }
        mc::state(st);
    }
    db.reset();
    wipe(dir);
    mc::outcome(s(m.m.size()));
}

// every word of operations played by a key of its own in one store
void columns(int rounds)
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    auto                  db  = std::make_unique<RocksDBCounter>(dir);
    const int             ops = 6;
    const uint64_t        n   = ipow(ops, rounds);
    std::vector<int64_t>  cur(n, -1);
    std::string           tr;
    for (int r = 0; r < rounds; r++) {
        for (uint64_t i = 0; i < n; i++) {
            std::string k  = s(i);
            uint32_t    v  = 77;
            bool        ok = true;
            mc::transitions();
            switch (word(i, rounds, ops)[r]) {
            case 0:
                break;
            case 1:
                cur[i]++;
                ok = db->get_and_increment(k, v);
                MC_CHECK(v == cur[i], "a counter handed out " + s(v) + " instead of " + s(cur[i]) + " (history " + s(i) + tr + ")");
                break;
            case 2:
                cur[i]++;
                ok = db->increment(k);
                break;
            case 3:
                cur[i] = cur[i] < 0 ? 3 : cur[i] + 1;
                ok     = db->increment(k, 3);
                break;
            case 4:
                cur[i] = r == 0 ? 0xFFFE : 0;
                ok     = db->set(k, cur[i]);
                break;
            case 5:
                cur[i] = -1;
                ok     = db->remove_key(k);
                break;
            }
            MC_CHECK(ok, "a counter operation fails for no reason (history " + s(i) + tr + ")");
        }
        int b = mc::choose(3, "between");
        if (b == 1) {
            db->flush(true);
            tr += " flush";
        } else if (b == 2) {
            db.reset();
            db = std::make_unique<RocksDBCounter>(dir);
            tr += " reopen";
        } else {
            tr += " -";
        }
        for (uint64_t i = 0; i < n; i++) {
            uint32_t v = 0;
            bool     f = db->get(s(i), v);
            MC_CHECK(f == (cur[i] >= 0), std::string(f ? "an absent counter is found" : "a counter is missed")
                                             + " (history " + s(i) + tr + ")");
            MC_CHECK(!f || v == cur[i], "a counter is " + s(v) + " instead of " + s(cur[i])
                                            + " (history " + s(i) + tr + ")");
            mc::validated();
        }
        mc::state(s(r) + tr);
    }
    db->approximate_size();
    db.reset();
    wipe(dir);
    mc::outcome(tr);
}

// long runs of increments: every value exactly once, across byte boundaries
void long_run()
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    auto     db    = std::make_unique<RocksDBCounter>(dir);
    uint32_t start = (uint32_t[]){0, 250, 65530, 0xFFFFFA, 0x7FFFFFF8}[mc::choose(5, "start")];
    bool     gai   = mc::flip("get_and_increment");
    int      every = (int[]){0, 3, 7}[mc::choose(3, "reopen every")];
    MC_CHECK(db->set("w", start), "set fails");
    for (uint32_t i = 1; i <= 300; i++) {
        uint32_t v = 0;
        MC_CHECK(gai ? db->get_and_increment("w", v) : db->increment("w"), "increment fails");
        MC_CHECK(!gai || v == start + i, "get_and_increment hands out " + s(v) + " instead of " + s(start + i));
        MC_CHECK(db->get("w", v) && v == start + i, "the counter is " + s(v) + " instead of " + s(start + i));
        mc::transitions();
        mc::validated();
        if (every && i % every == 0 && i < 40) {
            db.reset();
            db = std::make_unique<RocksDBCounter>(dir);
        }
    }
    db.reset();
    wipe(dir);
    mc::outcome(s(start));
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
    mc::Config c;
    c.shards      = 16;
    c.shard_depth = 2;
    mc::add("one counter", c, [] { history(mc::tier_pick(4, 5), 0, 1); });
    mc::add("two counters", c, [] { history(mc::tier_pick(3, 4), 0, 2); });
    mc::add("one counter, failing accesses", c, [] { history(mc::tier_pick(3, 4), 2, 1); });
    mc::add("two counters, failing accesses", c, [] { history(mc::tier_pick(2, 3), 2, 2); });
    mc::add("all per-counter histories at once", c, [] { columns(mc::tier_pick(4, 5)); });
    mc::add("long runs", c, [] { long_run(); });
}
