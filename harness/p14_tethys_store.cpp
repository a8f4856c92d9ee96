// P14: every small set of lists through the real store, all placements.
#include "tethys_common.h"

#include <iostream>

namespace {
using namespace ts;

struct L
{
    size_t h0, h1, len;
};

// a value wider than the control fields of the encoding
struct Wide
{
    uint64_t a, b;
    Wide() = default;
    Wide(uint64_t x) : a(x), b(~x)
    {
    }
    bool operator==(const Wide& o) const
    {
        return a == o.a && b == o.b;
    }
    bool operator<(const Wide& o) const
    {
        return a < o.a || (a == o.a && b < o.b);
    }
};
std::string str(uint64_t x)
{
    return s(x);
}
std::string str(const Wide& w)
{
    return w.b == ~w.a ? s(w.a) : "?";
}

template<size_t PAGE, size_t KEY, class T, bool ENC>
struct Dut
{
    using Key     = KeyOf<KEY>;
    using H       = Hasher<KEY>;
    using Enc     = encoders::EncodeSeparateEncoder<Key, T, PAGE>;
    using Dec     = encoders::EncodeSeparateDecoder<Key, T, PAGE>;
    using EncEnc  = encoders::EncryptEncoder<Enc, PAGE>;
    using DecDec  = encoders::DecryptDecoder<Dec, PAGE>;
    using VEnc    = typename std::conditional<ENC, EncEnc, Enc>::type;
    using Builder = TethysStoreBuilder<PAGE, Key, T, H, VEnc, Enc>;
    using Store
        = TethysStore<PAGE, Key, T, H, typename std::conditional<ENC, DecDec, Dec>::type>;
    // as the server of the scheme opens it: no key, no stash
    using Blind = TethysStore<PAGE, Key, T, H>;

    static std::string table()
    {
        return mc::scratch() + "/table";
    }
    static std::string stash()
    {
        return mc::scratch() + "/stash";
    }
    static void clean()
    {
        unlink(table().c_str());
        unlink(stash().c_str());
    }
    static std::array<uint8_t, 32> secret()
    {
        std::array<uint8_t, 32> k;
        k.fill(0x5A);
        return k;
    }
    static T value(size_t list, size_t i)
    {
        // values that look like lengths and like padding are among them
        if (i == 0 && list % 3 == 0) {
            return (T)0;
        }
        if (i == 1 && list % 3 == 1) {
            return (T)1;
        }
        return (T)(list * 64 + i + 100);
    }
    static void build(Builder& b)
    {
        if constexpr (ENC) {
            EncEnc e(secret());
            Enc    se;
            b.build(e, se);
        } else {
            b.build();
        }
    }
    static std::unique_ptr<Store> open()
    {
        if constexpr (ENC) {
            DecDec sd(secret());
            return std::make_unique<Store>(table(), stash(), sd);
        } else {
            return std::make_unique<Store>(table(), stash());
        }
    }
    static std::vector<T> get(Store& st, const Key& k)
    {
        if constexpr (ENC) {
            DecDec d(secret());
            return st.get_list(k, d);
        } else {
            return st.get_list(k);
        }
    }

    static std::string show(size_t n, double eps, const std::vector<L>& ls)
    {
        std::string o = "pages of " + s(PAGE) + " bytes, values of " + s(sizeof(T)) + (ENC ? ", encrypted" : "")
                        + ", room for " + s(n) + ":";
        for (const auto& l : ls)
            o += " (" + s(l.h0) + "," + s(l.h1) + ")x" + s(l.len);
        return o;
    }
    static std::string show(std::vector<T> v)
    {
        std::string o = "[";
        for (const T& t : v)
            o += " " + str(t);
        return o + " ]";
    }

    // g: number of buckets of the table (2, 4, ...)
    static void round_trip(size_t g, const std::vector<L>& ls)
    {
        TethysStoreBuilderParam p;
        p.tethys_table_path = table();
        p.tethys_stash_path = stash();
        p.epsilon           = 0;
        p.max_n_elements    = g / 2 * Builder::kBucketSize;
        clean();
        auto at = [&] { return " in " + show(p.max_n_elements, 0, ls); };
        MC_CHECK(p.graph_size(Builder::kBucketSize) == g, "unexpected table size");
        std::vector<Key>            keys;
        std::vector<std::vector<T>> vals;
        std::string                 what;
        try {
            what = "building";
            {
                Builder b(p);
                for (size_t i = 0; i < ls.size(); i++) {
                    keys.push_back(make_key<KEY>(g, ls[i].h0, ls[i].h1, i));
                    vals.emplace_back();
                    for (size_t j = 0; j < ls[i].len; j++)
                        vals.back().push_back(value(i, j));
                    b.insert_list(keys.back(), vals.back());
                }
                build(b);
            }
            what    = "opening";
            auto st = open();
            for (size_t i = 0; i < ls.size(); i++) {
                what          = "reading list " + s(i);
                auto r        = get(*st, keys[i]);
                auto sorted   = r;
                auto expected = vals[i];
                std::sort(sorted.begin(), sorted.end());
                std::sort(expected.begin(), expected.end());
                MC_CHECK(sorted == expected,
                         "list " + s(i) + " is " + show(r) + " instead of " + show(vals[i]) + at());
                mc::validated();
            }
            // keys that were not inserted, in every pair of buckets
            for (size_t b0 = 0; b0 < g / 2; b0++) {
                for (size_t b1 = 0; b1 < g / 2; b1++) {
                    what   = "reading an unknown list";
                    auto r = get(*st, make_key<KEY>(g, b0, b1, 77));
                    MC_CHECK(r.empty(), "an unknown key yields " + show(r) + at());
                }
            }
            // the buckets alone (what a server without the key returns), the
            // caller decoding them
            Blind bl(table(), stash());
            for (size_t i = 0; i < ls.size(); i++) {
                what    = "reading the buckets of list " + s(i);
                auto bp = bl.get_buckets(keys[i]);
                MC_CHECK(bp.index_0 == ls[i].h0 && bp.index_1 == g / 2 + ls[i].h1,
                         "wrong bucket numbers for list " + s(i) + at());
                auto full = get(*st, keys[i]);
                std::vector<T> r;
                if constexpr (ENC) {
                    DecDec d(secret());
                    r = Store::decode_list(keys[i], d, bp.payload_0, bp.index_0, bp.payload_1, bp.index_1);
                } else {
                    r = Store::decode_list(keys[i], bp.payload_0, bp.index_0, bp.payload_1, bp.index_1);
                }
                // what the buckets hold comes first, the stash follows
                MC_CHECK(r.size() <= full.size() && std::equal(r.begin(), r.end(), full.begin()),
                         "the buckets of list " + s(i) + " hold " + show(r) + ", the whole list is " + show(full) + at());
                if (r.size() < full.size())
                    mc::count("lists with values in the stash");
            }
        } catch (const std::exception& e) {
            mc::violation(what + " throws " + e.what() + at());
        }
        mc::transitions();
    }

    // the first two lists are choices of the explorer, the others a loop
    static void instances(size_t g, int n, const std::vector<size_t>& lens)
    {
        size_t         half = g / 2;
        size_t         per  = half * half * lens.size();
        std::vector<L> ls;
        auto           decode = [&](size_t c) {
            return L{c % half, c / half % half, lens[c / half / half]};
        };
        int outer = std::min(n, 2);
        for (int i = 0; i < outer; i++)
            ls.push_back(decode(mc::choose((int)per, "list")));
        size_t inner = 1;
        for (int i = outer; i < n; i++)
            inner *= per;
        for (size_t c = 0; c < inner; c++) {
            auto   all = ls;
            size_t r   = c;
            for (int i = outer; i < n; i++, r /= per)
                all.push_back(decode(r % per));
            round_trip(g, all);
        }
    }

    // sequences of valid and invalid calls on one builder, rebuilt stores
    static void misuse()
    {
        TethysStoreBuilderParam p;
        p.tethys_table_path = table();
        p.tethys_stash_path = stash();
        p.epsilon           = 0;
        p.max_n_elements    = Builder::kBucketSize;
        clean();
        constexpr size_t kMax = Builder::kMaxListSize;
        std::string      hist;
        std::vector<std::pair<Key, std::vector<T>>> model;
        bool                                        built = false;
        size_t                                      fresh = 0;
        auto check_store = [&] {
            auto st = open();
            for (auto& kv : model) {
                auto r = get(*st, kv.first), e = kv.second;
                std::sort(r.begin(), r.end());
                std::sort(e.begin(), e.end());
                MC_CHECK(r == e, "a list is " + show(r) + " instead of " + show(e) + " after" + hist);
            }
            // nothing under other keys, among them those of earlier stores
            for (uint32_t n = 0; n < 20; n++) {
                Key k = make_key<KEY>(2, 0, 0, n);
                if (std::any_of(model.begin(), model.end(), [&](auto& kv) { return kv.first == k; }))
                    continue;
                auto r = get(*st, k);
                MC_CHECK(r.empty(), "a key which is not in the store yields " + show(r) + " after" + hist);
            }
            mc::validated();
        };
        auto b     = std::make_unique<Builder>(p);
        int  depth = mc::tier_pick(4, 5);
        for (int i = 0; i < depth; i++) {
            int  op     = mc::choose(7, "op");
            bool thrown = false;
            try {
                switch (op) {
                case 0: // insert: small, or more of the largest than the buckets can hold
                case 1: {
                    hist += op == 0 ? " insert" : " insert-largest";
                    for (int n = 0; n < (op == 0 ? 1 : 3); n++) {
                        size_t         len = op == 0 ? 1 : kMax;
                        Key            k   = make_key<KEY>(2, 0, 0, fresh++);
                        std::vector<T> v;
                        for (size_t j = 0; j < len; j++)
                            v.push_back(value(fresh, j));
                        b->insert_list(k, v);
                        model.emplace_back(k, v);
                        MC_CHECK(!built, "a list is accepted after the store was built," + hist);
                    }
                    break;
                }
                case 2: // too long
                case 3: {
                    size_t len = op == 2 ? kMax + 1 : 3 * kMax + 20;
                    hist += " insert-too-long";
                    b->insert_list(make_key<KEY>(2, 0, 0, 50 + fresh++), std::vector<T>(len, (T)9));
                    mc::violation("a list of " + s(len) + " values is accepted," + hist);
                }
                case 4: // build
                    hist += " build";
                    build(*b);
                    MC_CHECK(!built, "building twice is accepted," + hist);
                    built = true;
                    check_store();
                    break;
                case 5: // drop the builder, start over on the same paths
                    hist += " new-builder";
                    b.reset();
                    if (built) {
                        check_store();
                    }
                    unlink(table().c_str()); // (the stash of the former store stays)
                    b = std::make_unique<Builder>(p);
                    model.clear();
                    fresh = 0;
                    built = false;
                    break;
                case 6: // an existing table is never overwritten
                    hist += " build-over";
                    if (built) {
                        Builder b2(p);
                        b2.insert_list(make_key<KEY>(2, 0, 0, 60), std::vector<T>(1, (T)8));
                        bool rejected = false;
                        try {
                            build(b2);
                        } catch (const std::exception&) {
                            rejected = true;
                        }
                        MC_CHECK(rejected, "building over an existing store is accepted," + hist);
                        check_store();
                    }
                    break;
                }
            } catch (const std::exception& e) {
                thrown = true;
                bool expected = op == 2 || op == 3 || ((op == 0 || op == 1 || op == 4) && built);
                MC_CHECK(expected, std::string("unexpected exception: ") + e.what() + "," + hist);
            }
            mc::transitions();
        }
        mc::state(hist);
        if (!built) {
            build(*b);
            built = true;
        }
        check_store();
    }

    static void add(const char* name, bool big)
    {
        constexpr size_t kMax = Builder::kMaxListSize;
        std::vector<size_t> all, ends = {0, 1, kMax};
        for (size_t l = 0; l <= kMax; l++)
            all.push_back(l);
        auto sc = [&](size_t g, int n, const std::vector<size_t>& lens) {
            mc::Config c;
            c.shards      = n > 2 ? 16 : 2;
            c.shard_depth = std::min(n, 2);
            mc::add(std::string(name) + ": " + s(g) + " buckets, " + s(n) + " lists"
                        + (lens.size() < all.size() ? " (empty, 1, largest)" : ""),
                    c,
                    [=] { instances(g, n, lens); });
        };
        bool t = mc::thorough();
        for (int n = 0; n <= 4; n++)
            sc(2, n, all);
        for (int n = 1; n <= 2; n++)
            sc(4, n, all);
        if (big || t) {
            sc(4, 3, all);
            sc(2, 5, all);
            sc(6, 2, all);
        }
        if (t) {
            sc(4, 4, ends);
            sc(2, 6, all);
            sc(6, 3, ends);
        }
        mc::Config c;
        c.shards      = 8;
        c.shard_depth = 2;
        mc::add(std::string(name) + ": misuse", c, [] { misuse(); });
    }
};
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    // 8 entries per bucket, 4 of them control entries for a list: up to 4 values
    Dut<64, 8, uint64_t, false>::add("plain, 8-byte values", true);
    // as in the schemes: 16-byte keys, 6 control entries
    Dut<64, 16, uint64_t, true>::add("encrypted, 8-byte values", true);
    // 16 entries, 12 control entries
    Dut<64, 16, uint32_t, false>::add("plain, 4-byte values", true);
    // 16 entries, 8 control entries
    Dut<64, 8, uint32_t, true>::add("encrypted, 4-byte values", false);
    // 8 entries, 4 control entries; the fields do not fill the entries
    Dut<128, 8, Wide, false>::add("plain, 16-byte values", false);
    Dut<128, 20, Wide, true>::add("encrypted, 16-byte values", false);
}
