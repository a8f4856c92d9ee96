// P16: every small set of keys through the real cuckoo table, all placements.
#include "mc.h"

#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

namespace {
using namespace sse::oceanus;
std::string s(size_t i)
{
    return std::to_string(i);
}
// 24-byte keys; the first two words are hashed
struct K
{
    uint64_t a, b, c;
    bool operator==(const K& o) const
    {
        return a == o.a && b == o.b && c == o.c;
    }
};
template<size_t PAGE>
struct V
{
    std::array<uint8_t, PAGE - sizeof(K)> b;
};
struct KS
{
    static constexpr size_t serialization_length()
    {
        return sizeof(K);
    }
    void serialize(const K& k, uint8_t* p)
    {
        memcpy(p, &k, sizeof k);
    }
};
template<size_t PAGE>
struct VS
{
    static constexpr size_t serialization_length()
    {
        return sizeof(V<PAGE>);
    }
    void serialize(const V<PAGE>& v, uint8_t* p)
    {
        memcpy(p, &v, sizeof v);
    }
    V<PAGE> deserialize(const uint8_t* p)
    {
        V<PAGE> v;
        memcpy(&v, p, sizeof v);
        return v;
    }
};
struct CH
{
    CuckooKey operator()(const K& k)
    {
        CuckooKey c;
        c.h[0] = k.a;
        c.h[1] = k.b;
        return c;
    }
};

std::string table()
{
    return mc::scratch() + "/table";
}
std::string tmp()
{
    return mc::scratch() + "/table.tmp";
}
void clean()
{
    unlink(table().c_str());
    unlink(tmp().c_str());
}
off_t size_of(const std::string& p)
{
    struct stat st;
    return stat(p.c_str(), &st) == 0 ? st.st_size : -1;
}

// a branch of the exploration that is given up does not commit its builder
struct Drop
{
    template<class T>
    void operator()(T* p) const
    {
        if (!std::uncaught_exceptions())
            delete p;
    }
};

// ---- the generic table
template<size_t PAGE_>
struct Raw
{
    static constexpr size_t PAGE = PAGE_;
    using Key                    = K;
    using Val                    = V<PAGE>;
    using B                      = CuckooBuilder<PAGE, K, Val, KS, VS<PAGE>, CH>;
    using T                      = CuckooHashTable<PAGE, K, Val, KS, VS<PAGE>, CH>;

    static std::unique_ptr<B, Drop> builder(size_t n, double eps, size_t depth)
    {
        CuckooBuilderParam p;
        p.value_file_path   = tmp();
        p.cuckoo_table_path = table();
        p.max_n_elements    = n;
        p.epsilon           = eps;
        p.max_search_depth  = depth;
        return std::unique_ptr<B, Drop>(new B(p));
    }
    static Key key(size_t m, size_t l0, size_t l1, size_t i)
    {
        return K{l0 + m * (i * 7 + 1), l1 + m * (i * 5 + 2), 0x1234};
    }
    static constexpr size_t kWords = 3;
    static Key              near(Key k, size_t m, size_t w, size_t byte) // same places, another key
    {
        (w == 0 ? k.a : w == 1 ? k.b : k.c) += (w < 2 ? m : 1) << (8 * byte);
        return k;
    }
    static Val val(size_t i)
    {
        Val v;
        v.b.fill((uint8_t)(i * 16 + 3));
        return v;
    }
    static bool same(const Val& a, const Val& b)
    {
        return a.b == b.b;
    }
};
// ---- the store of blocks of indices
struct Ocean
{
    static constexpr size_t PAGE = 4096;
    using Key                    = key_type;
    using Val                    = data_type<PAGE>;
    using B                      = OceanusBuilder<PAGE>;
    using T                      = Oceanus<PAGE>;

    static std::unique_ptr<B, Drop> builder(size_t n, double eps, size_t depth)
    {
        return std::unique_ptr<B, Drop>(new B(table(), n, eps, depth));
    }
    static Key key(size_t m, size_t l0, size_t l1, size_t i)
    {
        uint64_t h[2] = {l0 + m * (i * 7 + 1), l1 + m * (i * 5 + 2)};
        Key      k;
        memcpy(k.data(), h, 16);
        return k;
    }
    static constexpr size_t kWords = 2;
    static Key              near(const Key& k, size_t m, size_t w, size_t byte)
    {
        uint64_t h[2];
        memcpy(h, k.data(), 16);
        h[w] += m << (8 * byte);
        Key r;
        memcpy(r.data(), h, 16);
        return r;
    }
    static Val val(size_t i)
    {
        Val v;
        v.fill(0x0101010101010101ULL * (i + 3));
        return v;
    }
    static bool same(const Val& a, const Val& b)
    {
        return a == b;
    }
};

struct P
{
    size_t l0, l1;
};
// can all the keys be placed? every connected component of the places has at
// most as many keys as places
bool placeable(size_t m, const std::vector<P>& ks)
{
    std::vector<size_t> f(2 * m), e(2 * m), v(2 * m);
    for (size_t i = 0; i < f.size(); i++)
        f[i] = i;
    std::function<size_t(size_t)> find = [&](size_t x) { return f[x] == x ? x : f[x] = find(f[x]); };
    for (auto& k : ks)
        f[find(k.l0)] = find(m + k.l1);
    for (size_t i = 0; i < f.size(); i++)
        v[find(i)]++;
    for (auto& k : ks)
        e[find(k.l0)]++;
    for (size_t i = 0; i < f.size(); i++)
        if (e[i] > v[i])
            return false;
    return true;
}

template<class D>
void verify(size_t m, const std::vector<std::pair<typename D::Key, typename D::Val>>& in,
            const std::vector<typename D::Key>& out, bool async, const std::string& at)
{
    MC_CHECK(size_of(table()) == (off_t)(2 * m * D::PAGE),
             "the table takes " + s(size_of(table())) + " bytes instead of " + s(2 * m * D::PAGE) + at);
    MC_CHECK(size_of(tmp()) < 0, "the temporary file is left behind" + at);
    auto t = std::make_unique<typename D::T>(table());
    auto blocking = [&] {
        for (size_t i = 0; i < in.size(); i++) {
            try {
                MC_CHECK(D::same(t->get(in[i].first), in[i].second), "key " + s(i) + " has a wrong value" + at);
            } catch (const std::out_of_range&) {
                mc::violation("key " + s(i) + " is not found" + at);
            }
            mc::validated();
        }
        for (auto& k : out) {
            bool found = true;
            try {
                t->get(k);
            } catch (const std::out_of_range&) {
                found = false;
            }
            MC_CHECK(!found, "a key that was not inserted is found" + at);
        }
    };
    blocking();
    if (async) {
        size_t                        n = in.size() + out.size();
        std::vector<std::atomic<int>> calls(n);
        std::vector<int>              res(n, -1);
        for (auto& c : calls)
            c = 0;
        for (size_t i = 0; i < n; i++) {
            t->async_get(i < in.size() ? in[i].first : out[i - in.size()],
                         [&, i](std::experimental::optional<typename D::Val> v) {
                             res[i] = !v ? 0 : i < in.size() && D::same(*v, in[i].second) ? 1 : 2;
                             calls[i]++;
                         });
        }
        t.reset(); // waits
        for (size_t i = 0; i < n; i++) {
            MC_CHECK(calls[i] == 1, "the callback of an asynchronous lookup ran " + s(calls[i]) + " times" + at);
            MC_CHECK(res[i] == (i < in.size() ? 1 : 0),
                     std::string(i < in.size() ? "an inserted key " : "a key that was not inserted ")
                         + (res[i] == 0 ? "is not found" : res[i] == 1 ? "is found" : "has another value")
                         + " by an asynchronous lookup" + at);
            mc::validated();
        }
        // and again, now that the access mode was changed
        t = std::make_unique<typename D::T>(table());
        blocking();
    }
}

// keys at the given places; max_n configured elements
template<class D>
void round_trip(size_t n, double eps, size_t m, size_t depth, const std::vector<P>& ks, bool async, int ending)
{
    clean();
    std::string at = " (" + s(m) + " places per table, depth " + s(depth) + ", keys at";
    for (auto& k : ks)
        at += " " + s(k.l0) + "/" + s(k.l1);
    at += ")";
    bool                                                      deep = depth >= 4 * ks.size() + 4 * m;
    std::vector<std::pair<typename D::Key, typename D::Val>>  in;
    std::vector<typename D::Key>                              out;
    std::vector<P>                                            accepted;
    {
        auto b = D::builder(n, eps, depth);
        for (size_t i = 0; i < ks.size(); i++) {
            auto k = D::key(m, ks[i].l0, ks[i].l1, i);
            auto v = D::val(i);
            bool ok = true;
            try {
                b->insert(k, v);
            } catch (const std::exception& e) {
                ok = false;
            }
            auto with = accepted;
            with.push_back(ks[i]);
            bool can = placeable(m, with);
            MC_CHECK(can || !ok, "key " + s(i) + " is accepted although there is no room for it" + at);
            // a free place was there all along, or can be made
            if (deep)
                MC_CHECK(ok || !can, "key " + s(i) + " is rejected although there is room for it" + at);
            if (ok) {
                accepted = with;
                in.emplace_back(k, v);
            } else {
                out.push_back(k);
                mc::count("insertions without room");
            }
        }
        if (ending == 1)
            b->commit();
        if (ending == 2) {
            b->commit();
            b->commit();
            bool rejected = false;
            try {
                b->insert(D::key(m, 0, 0, 33), D::val(1));
            } catch (const std::exception&) {
                rejected = true;
            }
            MC_CHECK(rejected, "a key is accepted after the table was committed" + at);
        }
    }
    // absent keys for every pair of places
    for (size_t a = 0; a < m; a++)
        for (size_t c = 0; c < m; c++)
            out.push_back(D::key(m, a, c, 40));
    // keys that differ from an inserted one in a single byte, mostly
    size_t first = in.size();
    for (auto& kv : in)
        for (size_t w = 0; w < D::kWords; w++)
            for (size_t byte = 0; byte < 8; byte++)
                if (first < 3 || (w + byte) % 2 || byte == 7)
                    out.push_back(D::near(kv.first, m, w, byte));
    verify<D>(m, in, out, async, at);
    mc::transitions();
}

template<class D>
void instances(size_t m, size_t k, const std::vector<size_t>& depths, bool async)
{
    std::vector<P> ks;
    size_t         per = m * m, outer = std::min<size_t>(k, 2);
    for (size_t i = 0; i < outer; i++) {
        size_t c = mc::choose((int)per, "key");
        ks.push_back({c % m, c / m});
    }
    size_t inner = 1;
    for (size_t i = outer; i < k; i++)
        inner *= per;
    for (size_t depth : depths)
        for (size_t c = 0; c < inner; c++) {
            auto   all = ks;
            size_t r   = c;
            for (size_t i = outer; i < k; i++, r /= per)
                all.push_back({r % per % m, r % per / m});
            round_trip<D>(m, 0, m, depth, all, async, (int)(c % 3));
        }
}

// the number of places follows the parameters
template<class D>
void sizes()
{
    size_t n = 1 + mc::choose(12, "n");
    double e = std::vector<double>{0, 0.1, 0.25, 0.5, 1, 2}[mc::choose(6, "eps")];
    // the smallest integer at least n (1+e/2)
    size_t m = n;
    while (m < n * (1 + e / 2) - 1e-9)
        m++;
    std::vector<P> ks;
    for (size_t i = 0; i < n; i++)
        ks.push_back({i % m, (i + 1) % m});
    round_trip<D>(n, e, m, 100, ks, false, 1);
}

// building over an existing table; several tables in a row; moves
template<class D>
void misuse()
{
    clean();
    std::string                                              hist;
    std::vector<std::pair<typename D::Key, typename D::Val>> in, pending;
    bool                                                     exists = false;
    auto                                                     b = D::builder(2, 0, 20);
    bool committed = false;
    auto check = [&] {
        if (exists)
            verify<D>(2, in, {D::key(2, 0, 0, 50), D::key(2, 1, 1, 50)}, D::PAGE == 4096, " after" + hist);
    };
    size_t fresh = 0;
    int    depth = mc::tier_pick(5, 6);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(4, "op");
        if (op == 0) {
            hist += " insert";
            auto k = D::key(2, fresh % 2, fresh / 2 % 2, fresh);
            bool ok = true;
            try {
                b->insert(k, D::val(fresh));
            } catch (const std::exception&) {
                ok = false;
            }
            MC_CHECK(!(ok && committed), "a key is accepted after the table was committed," + hist);
            if (!committed && pending.size() < 2)
                MC_CHECK(ok, "a key is rejected," + hist);
            if (ok)
                pending.emplace_back(k, D::val(fresh));
            fresh++;
        } else if (op == 1) {
            hist += " commit";
            bool ok = true;
            try {
                b->commit();
            } catch (const std::exception&) {
                ok = false;
            }
            if (!committed) {
                MC_CHECK(ok == !exists, std::string(ok ? "a commit over an existing table is accepted,"
                                                       : "a commit is rejected,")
                                            + hist);
                if (ok) {
                    in     = pending;
                    exists = true;
                } else {
                    unlink(tmp().c_str());
                }
            }
            committed = true;
            check();
        } else if (op == 2) { // another builder (an uncommitted one commits first)
            hist += " new-builder";
            if (!committed && exists) { // would commit over it in its destructor
                try {
                    b->commit();
                    mc::violation("a commit over an existing table is accepted," + hist);
                } catch (const std::exception&) {
                }
                unlink(tmp().c_str());
                committed = true;
            }
            b.reset();
            if (!committed) {
                in     = pending;
                exists = true;
            }
            check();
            b         = D::builder(2, 0, 20);
            committed = false;
            pending.clear();
        } else {
            if constexpr (!std::is_same<D, Ocean>::value) {
                hist += " move";
                std::unique_ptr<typename D::B, Drop> b2(new typename D::B(std::move(*b)));
                b.reset();
                b = std::move(b2);
            }
        }
        mc::transitions();
    }
    if (!committed && exists) {
        try {
            b->commit();
            mc::violation("a commit over an existing table is accepted," + hist);
        } catch (const std::exception&) {
        }
        unlink(tmp().c_str());
        committed = true;
    }
    b.reset();
    if (!committed) {
        in     = pending;
        exists = true;
    }
    check();
    mc::state(hist);
}

// the key made of 0xFF bytes is a key like the others
template<class D>
void all_ones()
{
    clean();
    int  with = mc::choose(2, "insert");
    auto b    = D::builder(1, 0, 10);
    typename D::Key k;
    memset(&k, 0xFF, sizeof k);
    if (with)
        b->insert(k, D::val(1));
    b.reset();
    typename D::T t(table());
    if (with) {
        MC_CHECK(D::same(t.get(k), D::val(1)), "the key 0xFF..FF has a wrong value");
    } else {
        bool found = true;
        try {
            t.get(k);
        } catch (const std::out_of_range&) {
            found = false;
        }
        if (found)
            mc::finding("absent-key-ff", "the key made of 0xFF bytes, which was not inserted, is found");
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    using Small = Raw<64>;
    using Page  = Raw<4096>;
    auto cfg    = [](int shards, int d) {
        mc::Config c;
        c.shards      = shards;
        c.shard_depth = d;
        return c;
    };
    const std::vector<size_t> depths = {1, 2, 3, 5, 100};
    for (size_t k = 0; k <= 3; k++)
        mc::add("1 place, " + s(k) + " keys", cfg(1, 1), [=] { instances<Small>(1, k, depths, false); });
    for (size_t k = 1; k <= 5; k++)
        mc::add("2 places, " + s(k) + " keys", cfg(k > 2 ? 8 : 2, std::min<size_t>(k, 2)),
                [=] { instances<Small>(2, k, k > 4 ? std::vector<size_t>{3, 100} : depths, false); });
    for (size_t k = 1; k <= 3; k++)
        mc::add("3 places, " + s(k) + " keys", cfg(8, std::min<size_t>(k, 2)),
                [=] { instances<Small>(3, k, depths, false); });
    mc::add("3 places, 4 keys", cfg(16, 2),
            [=] { instances<Small>(3, 4, mc::thorough() ? depths : std::vector<size_t>{100}, false); });
    for (size_t k = 1; k <= 3; k++)
        mc::add("asynchronous, 2 places, " + s(k) + " keys", cfg(4, std::min<size_t>(k, 2)),
                [=] { instances<Page>(2, k, {100}, true); });
    for (size_t k = 0; k <= 3; k++)
        mc::add("Oceanus, 2 places, " + s(k) + " keys", cfg(k ? 4 : 1, std::min<size_t>(std::max<size_t>(k, 1), 2)),
                [=] { instances<Ocean>(2, k, {3, 100}, true); });
    mc::add("sizes", cfg(4, 2), [] { sizes<Small>(); });
    mc::add("Oceanus sizes", cfg(4, 2), [] { sizes<Ocean>(); });
    mc::add("misuse", cfg(8, 3), [] { misuse<Small>(); });
    mc::add("Oceanus misuse", cfg(8, 3), [] { misuse<Ocean>(); });
    mc::add("key 0xFF", cfg(1, 1), [] { all_ones<Small>(); });
    if (mc::thorough()) {
        mc::add("2 places, 6 keys", cfg(16, 2), [=] { instances<Small>(2, 6, {100}, false); });
        mc::add("3 places, 5 keys", cfg(16, 2), [=] { instances<Small>(3, 5, {100}, false); });
        mc::add("4 places, 4 keys", cfg(16, 2), [=] { instances<Small>(4, 4, {100}, false); });
        mc::add("Oceanus, 2 places, 4 keys", cfg(16, 2), [=] { instances<Ocean>(2, 4, {100}, true); });
    }
}
