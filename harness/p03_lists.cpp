// P03: the persistent list store returns exactly the last stored list.
#include "store_common.h"

namespace {
// self-delimiting elements, including empty ones
struct StringSerializer
{
    uint8_t mask = 0;
    std::string serialize(const std::string& e)
    {
        std::string o(1, (char)e.size());
        for (char c : e)
            o += (char)(c ^ mask);
        return o;
    }
    bool deserialize(std::string::iterator& it, const std::string::iterator& end, std::string& out)
    {
        if (it == end) {
            return false;
        }
        size_t n = (unsigned char)*it;
        if ((size_t)(end - it) < n + 1) {
            return false;
        }
        out.assign(it + 1, it + 1 + n);
        for (auto& c : out)
            c ^= mask;
        it += n + 1;
        return true;
    }
};
} // namespace
namespace sse { namespace sophos {
template<>
struct serialization<uint64_t>
{
    std::string serialize(const uint64_t& x)
    {
        return std::string((const char*)&x, 8);
    }
    bool deserialize(std::string::iterator& it, const std::string::iterator& end, uint64_t& out)
    {
        if (end - it < 8) {
            return false;
        }
        std::copy(it, it + 8, (char*)&out);
        it += 8;
        return true;
    }
};
}} // namespace sse::sophos

namespace {
using namespace store;
using sse::sophos::RockDBListStore;
template<size_t N>
using Key = std::array<uint8_t, N>;

template<size_t N>
Key<N> key(int i)
{
    Key<N> k{};
    if (i == 1) {
        k.fill(0xFF);
    } else if (i == 2) {
        k[N - 1] = 1;
    }
    return k;
}

std::list<std::string> list_of(const std::string*, int n, int ver)
{
    std::string v((1 + ver) % 3 == 0 ? 255 : 3, (char)('a' + ver));
    switch (n) {
    case 0:
        return {};
    case 1:
        return {""};
    case 2:
        return {v, "", std::string("\0\xff\0", 3), v};
    default: {
        std::list<std::string> l;
        for (int i = 0; i < 400; i++) {
            l.push_back(s(i * 7 + ver));
        }
        return l;
    }
    }
}
std::list<uint64_t> list_of(const uint64_t*, int n, int ver)
{
    switch (n) {
    case 0:
        return {};
    case 1:
        return {0};
    case 2:
        return {~0ull, (uint64_t)ver, 0x0a0d000000000000ull, (uint64_t)ver};
    default: {
        std::list<uint64_t> l;
        for (int i = 0; i < 400; i++) {
            l.push_back(i * 0x0101010101010101ull + ver);
        }
        return l;
    }
    }
}
template<class T>
T junk();
template<>
std::string junk<std::string>()
{
    return "junk";
}
template<>
uint64_t junk<uint64_t>()
{
    return 0xDEAD;
}

template<size_t N, class T, class Ser>
struct Run
{
    using Store = RockDBListStore<T, Ser>;
    using List  = std::list<T>;
    std::unique_ptr<Store> db;
    std::map<int, List>    m;
    Ser                    ser;
    void look(int k, const std::string& at)
    {
        auto        it = m.find(k);
        const List  want = it == m.end() ? List() : it->second;
        auto        kk   = key<N>(k);
        std::string sk((const char*)kk.data(), N);
        const Store& cs = *db;
        for (int how = 0; how < 6; how++) {
            for (int pre = 0; pre < 2; pre++) {
                List out;
                if (pre) {
                    out = {junk<T>(), junk<T>()};
                }
                bool f = false;
                bool st = std::is_same<Ser, StringSerializer>::value && false;
                (void)st;
                switch (how) {
                case 0:
                    f = cs.get(sk, out, ser);
                    break;
                case 1:
                    f = cs.get(kk, out, ser);
                    break;
                case 2:
                    f = cs.get(kk.data(), (uint8_t)N, out, ser);
                    break;
                case 3:
                    f = plain() ? cs.get(sk, out) : cs.get(sk, out, ser);
                    break;
                case 4:
                    f = plain() ? cs.get(kk, out) : cs.get(kk, out, ser);
                    break;
                case 5:
                    f = plain() ? cs.get(kk.data(), (uint8_t)N, out) : cs.get(kk, out, ser);
                    break;
                }
                MC_CHECK(f == (it != m.end()), std::string(f ? "a list is found under a key that was never stored"
                                                             : "a stored list is missed")
                                                   + " (lookup " + s(how) + ", key " + s(k) + ")" + at);
                MC_CHECK(out == want, "a lookup returns a wrong list of " + s(out.size()) + " elements instead of "
                                          + s(want.size()) + " (lookup " + s(how) + ", key " + s(k) + ", output "
                                          + (pre ? "pre-filled" : "empty") + ")" + at);
                mc::validated();
            }
        }
    }
    bool plain_ser = true;
    bool plain() const
    {
        return plain_ser;
    }
    void history(int depth, bool stateful, int faults)
    {
        std::string dir = mc::scratch() + "/db";
        wipe(dir);
        faultdb::g_fault = nullptr;
        plain_ser        = !stateful;
        set_state(ser, stateful);
        db = std::make_unique<Store>(dir);
        std::string tr;
        int         left = faults;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(10, "op");
            mc::transitions();
            if (op == 0) {
                tr += " reopen";
                db.reset();
                db = std::make_unique<Store>(dir);
            } else if (op == 1) {
                tr += " flush";
                db->flush(i % 2);
            } else {
                int  k = (op - 2) / 4, l = (op - 2) % 4;
                List v = list_of((const T*)nullptr, l, i);
                tr += " put" + s(k) + "(" + s(l) + ")";
                uint64_t before  = faultdb::g_failed;
                faultdb::g_fault = [&](bool) {
                    if (left > 0 && mc::flip("fault")) {
                        left--;
                        tr += "!";
                        return 1;
                    }
                    return 0;
                };
                List given = v;
                bool ok    = plain_ser ? db->put(key<N>(k), given) : db->put(key<N>(k), given, ser);
                faultdb::g_fault = nullptr;
                MC_CHECK(given == v, "put changes the caller's list [" + tr + "]");
                MC_CHECK(ok || before != faultdb::g_failed, "put fails for no reason [" + tr + "]");
                if (ok) {
                    m[k] = v;
                }
            }
            for (int k = 0; k < 3; k++) {
                look(k, " [" + tr + "]");
            }
            std::string st = s(i);
            for (auto& x : m) {
                st += "," + s(x.first) + "=" + s(x.second.size());
            }
            mc::state(st);
        }
        db.reset();
        wipe(dir);
        mc::outcome(s(m.size()));
    }
    static void set_state(StringSerializer& x, bool st)
    {
        x.mask = st ? 0x5A : 0;
    }
    template<class X>
    static void set_state(X&, bool)
    {
    }
};
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
    mc::Config c;
    c.shards      = 16;
    c.shard_depth = 2;
    int d         = mc::tier_pick(3, 4);
    using I       = sse::sophos::serialization<uint64_t>;
    mc::add("lists of strings", c, [d] { Run<16, std::string, StringSerializer>().history(d, false, 0); });
    mc::add("lists of strings, caller's serializer", c,
            [d] { Run<16, std::string, StringSerializer>().history(d, true, 0); });
    mc::add("lists of integers", c, [d] { Run<32, uint64_t, I>().history(d, false, 0); });
    mc::add("lists of integers, 1-byte keys", c, [d] { Run<1, uint64_t, I>().history(d - 1, false, 0); });
    mc::add("lists of integers, failing accesses", c, [d] { Run<16, uint64_t, I>().history(d, false, 1); });
}
