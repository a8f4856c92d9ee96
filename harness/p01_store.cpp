// P01: the persistent key-value store is a map, over every short history.
#include "store_common.h"

namespace {
using namespace store;
using sse::sophos::RockDBWrapper;

template<size_t N>
using Key = std::array<uint8_t, N>;

template<size_t N>
Key<N> key(int i)
{
    Key<N> k{};
    switch (i) {
    case 0: // nearly all zeroes
        k[N - 1] = 1;
        break;
    case 1:
        k.fill(0xFF);
        break;
    case 2: // differs from key 0 in the last byte only
        k[N - 1] = 2;
        break;
    default:
        k[0] = 4;
    }
    return k;
}

using V24 = std::array<uint8_t, 24>;
template<typename V>
V value(int n);
template<>
uint32_t value<uint32_t>(int n)
{
    return n == 1 ? 0 : 0x01020300u + n;
}
template<>
uint64_t value<uint64_t>(int n)
{
    return n == 1 ? 0 : 0x0102030405060700ull + n;
}
template<>
V24 value<V24>(int n)
{
    V24 v;
    v.fill(n);
    v[23] = 0;
    return v;
}

// what lookups of key k say, through every procedure
template<size_t N, typename V>
void lookup(const RockDBWrapper& db, const Key<N>& k, bool present, V want, const std::string& at)
{
    V    v;
    auto bad = [&](const char* how) {
        return std::string("lookup through ") + how + " of key " + hex(std::string((char*)k.data(), N));
    };
    memset(&v, 0xA5, sizeof v);
    bool f = db.get(k, v);
    MC_CHECK(f == present, bad("array") + (f ? " succeeds on an absent key" : " misses a stored key") + at);
    MC_CHECK(!present || v == want, bad("array") + " returns a wrong value" + at);
    memset(&v, 0xA5, sizeof v);
    f = db.get(k.data(), (uint8_t)N, v);
    MC_CHECK(f == present, bad("pointer") + (f ? " succeeds on an absent key" : " misses a stored key") + at);
    MC_CHECK(!present || v == want, bad("pointer") + " returns a wrong value" + at);
    std::string d = "leftover";
    f = db.get(std::string((const char*)k.data(), N), d);
    MC_CHECK(f == present, bad("string") + (f ? " succeeds on an absent key" : " misses a stored key") + at);
    MC_CHECK(!present || (d.size() == sizeof(V) && !memcmp(d.data(), &want, sizeof(V))),
             bad("string") + " returns a wrong value" + at);
    mc::validated(3);
}

// every history of `depth` operations over three keys in one store
template<size_t N, typename V>
void history(int depth, int faults)
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    faultdb::g_fault = nullptr;
    auto              db = std::make_unique<RockDBWrapper>(dir);
    std::map<int, V>  model;
    std::string       tr;
    int               ver = 0, left = faults;
    struct Reset
    {
        ~Reset()
        {
            faultdb::g_fault = nullptr;
        }
    } reset;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(8, "op");
        mc::transitions();
        uint64_t failed = faultdb::g_failed;
        faultdb::g_fault = [&](bool) {
            if (left > 0 && mc::flip("fault")) {
                left--;
                tr += "!";
                return 1;
            }
            return 0;
        };
        bool ok = true, was = false;
        int  k  = -1;
        switch (op) {
        case 0:
        case 1:
        case 2:
            k  = op;
            tr += " put" + s(k);
            ver++;
            ok = db->put(key<N>(k), value<V>(ver));
            if (ok) {
                model[k] = value<V>(ver);
            }
            break;
        case 3:
        case 4: {
            k  = op - 3;
            tr += " remove" + s(k);
            auto kk = key<N>(k);
            ok = op == 3 ? db->remove(kk) : db->remove(kk.data(), (uint8_t)N);
            if (ok) {
                model.erase(k);
            }
            break;
        }
        case 5:
            tr += " flush";
            db->flush(true);
            break;
        case 6:
            tr += " flush(no wait)";
            db->flush(false);
            break;
        case 7:
            tr += " reopen";
            db.reset();
            db = std::make_unique<RockDBWrapper>(dir);
            break;
        }
        faultdb::g_fault = nullptr;
        std::string at   = " [" + tr + "]";
        MC_CHECK(ok || faultdb::g_failed != failed, "an update fails for no reason" + at);
        for (int j = 0; j < 4; j++) {
            auto it = model.find(j);
            lookup<N, V>(*db, key<N>(j), it != model.end(), it == model.end() ? V{} : it->second, at);
        }
        std::string st = s(i);
        for (auto& m : model) {
            st += "," + s(m.first) + "=" + hex(std::string((char*)&m.second, sizeof(V)));
        }
        mc::state(st);
    }
    db->approximate_size();
    db.reset();
    mc::outcome(s(model.size()));
    wipe(dir);
}

// One store in which every word of per-key operations is played by a key of
// its own, for each choice of a flush or a reopening between the rounds.
template<size_t N, typename V>
void columns(int rounds)
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    auto           db = std::make_unique<RockDBWrapper>(dir);
    const int      ops = 4; // nothing, put, put the same as before, remove
    const uint64_t n   = ipow(ops, rounds);
    auto           kk  = [](uint64_t i) {
        Key<N> k{};
        if (N >= 4) {
            uint32_t x = (uint32_t)i * 2654435761u; // spread over all bytes
            memcpy(k.data() + N - 4, &x, 4);
        } else {
            k[0] = i;
            k[N - 1] = i >> 8;
        }
        return k;
    };
    std::vector<int> cur(n, 0);
    std::string      tr;
    for (int r = 0; r < rounds; r++) {
        for (uint64_t i = 0; i < n; i++) {
            int op = word(i, rounds, ops)[r];
            mc::transitions();
            bool ok = true;
            if (op == 1) {
                cur[i] = (i + r) % 200 + 1;
                ok     = db->put(kk(i), value<V>(cur[i]));
            } else if (op == 2) {
                if (cur[i] == 0) {
                    cur[i] = 7;
                }
                ok = db->put(kk(i), value<V>(cur[i]));
            } else if (op == 3) {
                cur[i] = 0;
                ok     = db->remove(kk(i));
            }
            MC_CHECK(ok, "an update fails for no reason");
        }
        switch (mc::choose(3, "between")) {
        case 1:
            db->flush(true);
            tr += " flush";
            break;
        case 2:
            db.reset();
            db = std::make_unique<RockDBWrapper>(dir);
            tr += " reopen";
            break;
        default:
            tr += " -";
        }
        for (uint64_t i = 0; i < n; i++) {
            V    v;
            bool f = db->get(kk(i), v);
            MC_CHECK(f == (cur[i] != 0), std::string(f ? "an absent key is found" : "a stored key is missed")
                                             + " (history " + s(i) + ", round " + s(r) + tr + ")");
            MC_CHECK(!f || v == value<V>(cur[i]),
                     "a wrong value is returned (history " + s(i) + ", round " + s(r) + tr + ")");
            mc::validated();
        }
        mc::state(s(r) + tr);
    }
    db.reset();
    mc::outcome(tr);
    wipe(dir);
}

// many versions of few keys, flushed often: compactions run
void compaction()
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    auto                    db = std::make_unique<RockDBWrapper>(dir);
    std::map<int, uint64_t> model;
    int                     pat = mc::choose(4, "pattern");
    int                     end = mc::choose(3, "end");
    for (int r = 0; r < 26; r++) {
        for (int k = 0; k < 4; k++) {
            if ((r + k * pat) % 3 == 2) {
                MC_CHECK(db->remove(key<16>(k)), "remove fails");
                model.erase(k);
            } else if (pat != 1 || k == r % 4) {
                MC_CHECK(db->put(key<16>(k), value<uint64_t>(r + 2)), "put fails");
                model[k] = value<uint64_t>(r + 2);
            }
        }
        db->flush(true);
        mc::transitions(4);
        for (int k = 0; k < 4; k++) {
            lookup<16, uint64_t>(*db, key<16>(k), model.count(k), model.count(k) ? model[k] : 0,
                                 " after flush " + s(r));
        }
    }
    if (end) {
        db.reset();
        db = std::make_unique<RockDBWrapper>(dir);
    }
    for (int k = 0; k < 4; k++) {
        lookup<16, uint64_t>(*db, key<16>(k), model.count(k), model.count(k) ? model[k] : 0, " at the end");
    }
    db.reset();
    wipe(dir);
    mc::outcome(s(pat) + s(end));
}

// the two extreme keys
template<size_t N>
void extremes(bool both)
{
    std::string dir = mc::scratch() + "/db";
    wipe(dir);
    auto   db   = std::make_unique<RockDBWrapper>(dir);
    Key<N> k[2] = {};
    k[1].fill(0xFF);
    int  only  = both ? -1 : mc::choose(2, "which");
    auto check = [&](const char* when) {
        bool ok = db->put(key<N>(3), value<uint64_t>(9));
        for (int i = 0; i < 2 && ok; i++) {
            uint64_t v;
            bool     f = db->get(k[i], v);
            ok = f == (both || i == only) && (!f || v == value<uint64_t>(i + 1));
        }
        if (!ok) {
            MC_CHECK(both, std::string("a store holding one extreme key is broken ") + when);
            mc::finding_end("extreme-keys", std::string("a store holding both the all-zero and the "
                                                        "all-ones key does not work ") + when);
        }
    };
    for (int i = 0; i < 2; i++) {
        if (both || i == only) {
            MC_CHECK(db->put(k[i], value<uint64_t>(i + 1)), "put fails");
        }
    }
    check("before a flush");
    db->flush(true);
    check("after a flush");
    db.reset();
    try {
        db = std::make_unique<RockDBWrapper>(dir);
    } catch (std::runtime_error&) {
        MC_CHECK(both, "a store holding one extreme key does not open");
        mc::finding_end("extreme-keys",
                        "a store holding both the all-zero and the all-ones key does not open");
    }
    check("when reopened");
    db.reset();
    wipe(dir);
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) sse::logger::set_logger(nullptr);
    mc::Config c;
    c.shards      = 16;
    c.shard_depth = 2;
    int d         = mc::tier_pick(4, 5);
    mc::add("histories, 16-byte keys, 8-byte values", c, [d] { history<16, uint64_t>(d, 0); });
    mc::add("histories, 32-byte keys, 24-byte values", c, [d] { history<32, V24>(d - 1, 0); });
    mc::add("histories, 1-byte keys, 4-byte values", c, [d] { history<1, uint32_t>(d - 1, 0); });
    mc::add("failing accesses", c, [d] { history<16, uint32_t>(d - 1, 2); });
    mc::Config k;
    k.shards      = 8;
    k.shard_depth = 2;
    int r         = mc::tier_pick(4, 5);
    mc::add("all per-key histories at once, 16-byte keys", k, [r] { columns<16, uint64_t>(r); });
    mc::add("all per-key histories at once, 4-byte keys", k, [r] { columns<4, uint32_t>(r); });
    mc::add("all per-key histories at once, 2-byte keys", k, [r] { columns<2, uint64_t>(r); });
    mc::add("compactions", k, [] { compaction(); });
    mc::add("one extreme key", c, [] { extremes<16>(false); });
    mc::add("both extreme keys", c, [] { extremes<16>(true); });
}
