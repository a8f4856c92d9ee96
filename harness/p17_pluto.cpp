// P17: every small inverted index through Pluto, with both complete-list back
// ends, for every placement of the incomplete lists in the Tethys table.
#include "scheme_common.h"

#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>

namespace {
using namespace sc;
namespace pl = sse::pluto;

std::string path(const char* n)
{
    return mc::scratch() + "/" + n;
}

template<class P>
struct HT; // parameters of the store of the complete lists
template<size_t N>
struct HT<pl::DefaultPlutoParams<N>>
{
    static constexpr bool kRocks = false;
    static auto           builder(size_t n_elts)
    {
        sse::oceanus::CuckooBuilderParam p;
        p.value_file_path   = path("cuckoo.tmp");
        p.cuckoo_table_path = path("cuckoo");
        p.max_n_elements    = 1 + (n_elts - 1) / pl::DefaultPlutoParams<N>::kPlutoListLength;
        p.epsilon           = 6; // place for every key (capacities are P16's)
        p.max_search_depth  = 20;
        return p;
    }
    static std::string server()
    {
        return path("cuckoo");
    }
    static void clean()
    {
        unlink(path("cuckoo").c_str());
        unlink(path("cuckoo.tmp").c_str());
    }
};
template<size_t N>
struct HT<pl::RocksDBPlutoParams<N>>
{
    static constexpr bool                kRocks = true;
    static pl::GenericRocksDBStoreParams server()
    {
        pl::GenericRocksDBStoreParams p;
        p.path            = path("blocks");
        p.rocksdb_options = pl::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        return p;
    }
    static pl::GenericRocksDBStoreParams builder(size_t)
    {
        return server();
    }
    static void clean()
    {
        if (sse::utility::is_directory(path("blocks")))
            sse::utility::remove_directory(path("blocks"));
    }
};

template<class P>
struct Dut
{
    using H       = HT<P>;
    using Builder = pl::PlutoBuilder<P>;
    using Server  = pl::PlutoServer<P>;
    using Dec = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, P::kPageSize>;
    using Client = pl::PlutoClient<Dec>;
    static constexpr size_t L = P::kPlutoListLength;

    enum How
    {
        Lists, // insert_list
        Moved, // as Lists, the builder moved half-way
        File,  // load_inverted_index
    };

    static void clean()
    {
        H::clean();
        unlink(path("table").c_str());
        unlink(path("stash").c_str());
    }
    static std::unique_ptr<Builder> make(size_t g, size_t n_elts)
    {
        TethysStoreBuilderParam p;
        p.tethys_table_path = path("table");
        p.tethys_stash_path = path("stash");
        p.epsilon           = 0;
        p.max_n_elements    = g / 2 * (P::kPageSize / sizeof(index_type));
        MC_CHECK(p.graph_size(P::kPageSize / 8) == g, "unexpected table size");
        return std::make_unique<Builder>(n_elts, p, H::builder(n_elts), master_key(), secret(0x44));
    }
    static Ids search(Client& c, Server& sv, const std::string& kw)
    {
        auto req = c.search_request(kw);
        return c.decode_search_results(req, sv.search(req));
    }

    // lens[i]: length of the list of the i-th keyword, pl: its bucket pair
    static void round_trip(size_t                                        g,
                           size_t                                        spare,
                           How                                           how,
                           const std::vector<size_t>&                    lens,
                           const std::vector<std::pair<size_t, size_t>>& places)
    {
        clean();
        standin::reset_world();
        Placement place;
        place.g      = g;
        size_t total = 0;
        auto   name  = [&](size_t i) {
            return how == File ? "kw" + s(i) : names()[i];
        };
        for (size_t i = 0; i < lens.size(); i++) {
            place.at[{token_of(name(i)), 0}] = places[i];
            total += lens[i];
        }
        // unknown keywords in every pair of buckets
        std::vector<std::string> unknown;
        for (size_t b = 0; b < g / 2 * (g / 2); b++) {
            unknown.push_back("unknown" + s(b));
            place.at[{token_of(unknown.back()), 0}] = {b % (g / 2), b / (g / 2)};
        }
        place.install();
        std::string at = " (blocks of " + s(L) + ", " + s(g) + " buckets, "
                         + (how == Lists ? "lists" : how == Moved ? "builder moved" : "file") + ", room for "
                         + s(total + spare) + ", lengths and buckets:";
        for (size_t i = 0; i < lens.size(); i++)
            at += " " + s(lens[i]) + " in " + s(places[i].first) + "," + s(places[i].second);
        at += ")";
        std::string what = "building";
        try {
            {
                auto b = make(g, std::max<size_t>(1, total + spare));
                if (how == File) {
                    std::ofstream f(path("index"));
                    for (size_t i = 0; i < lens.size(); i++) {
                        f << name(i);
                        for (auto v : values(i, lens[i]))
                            f << " " << (unsigned)v;
                        f << "\n";
                    }
                    f.close();
                    MC_CHECK(b->load_inverted_index(path("index")), "the file is not loaded" + at);
                } else {
                    for (size_t i = 0; i < lens.size(); i++) {
                        if (how == Moved && i == lens.size() / 2) {
                            b = std::make_unique<Builder>(std::move(*b));
                        }
                        auto v = values(i, lens[i]);
                        b->insert_list(name(i), std::list<uint64_t>(v.begin(), v.end()));
                    }
                }
                b->build();
            }
            what = "opening";
            for (int round = 0; round < 2; round++) {
                Server sv(path("table"), H::server());
                Client c(path("stash"), master_key(), secret(0x44));
                for (size_t i = 0; i < lens.size(); i++) {
                    what     = "searching keyword " + s(i);
                    auto exp = values(i, lens[i]);
                    if (how == File) {
                        for (auto& e : exp)
                            e = (unsigned)e;
                    }
                    same(search(c, sv, name(i)), exp, what + at);
                }
                for (auto& u : unknown) {
                    what = "searching an unknown keyword";
                    same(search(c, sv, u), {}, what + at);
                }
                if (H::kRocks)
                    break;
            }
        } catch (const std::exception& e) {
            mc::violation(what + " throws " + e.what() + at);
        }
        mc::transitions();
    }

    // the lengths are choices of the explorer, the places a loop
    static void instances(size_t g, int n, const std::vector<size_t>& from, bool file)
    {
        std::vector<size_t> lens;
        for (int i = 0; i < n; i++)
            lens.push_back(from[mc::choose((int)from.size(), "length")]);
        std::string st;
        for (auto l : lens)
            st += s(l) + " ";
        mc::state(st);
        size_t half = g / 2, per = half * half, all = 1;
        for (int i = 0; i < n; i++)
            all *= per;
        for (size_t c = 0; c < all; c++) {
            std::vector<std::pair<size_t, size_t>> places;
            size_t                                 r = c;
            for (int i = 0; i < n; i++, r /= per)
                places.push_back({r % per % half, r % per / half});
            // the order in which equal placements are tried is irrelevant: the
            // ways of building alternate except for the smallest indexes
            if (n <= 2 && !H::kRocks) {
                for (size_t spare : n == 1 ? std::vector<size_t>{0, 1, L, 5 * L} : std::vector<size_t>{0, L}) {
                    round_trip(g, spare, Lists, lens, places);
                }
                round_trip(g, 0, Moved, lens, places);
                if (file)
                    round_trip(g, 0, File, lens, places);
            } else {
                size_t k = c;
                for (auto l : lens)
                    k += l;
                round_trip(g, k % 3, k % 5 == 3 ? Moved : k % 5 == 4 && file ? File : Lists, lens, places);
            }
        }
    }

    static void add(const char* name)
    {
        std::vector<size_t> all, ends = {0, 1, L - 1, L, L + 1, 2 * L};
        ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
        for (size_t l = 0; l <= 2 * L + 2; l++)
            all.push_back(l);
        auto sc = [&](size_t g, int n, const std::vector<size_t>& from, const char* lname) {
            mc::Config c;
            c.shards      = n > 1 ? 8 : 1;
            c.shard_depth = std::min(n, 2);
            mc::add(std::string(name) + ": " + s(g) + " buckets, " + s(n) + " keywords" + lname,
                    c,
                    [=] { instances(g, n, from, true); });
        };
        const char* l1 = " (every length up to two blocks)";
        const char* l2 = " (lengths around the block size)";
        bool        t  = mc::thorough();
        sc(2, 0, all, "");
        sc(2, 1, all, l1);
        sc(4, 1, all, l1);
        sc(2, 2, all, l1);
        sc(2, 3, ends, l2);
        if (!H::kRocks || L <= 4 || t) {
            sc(4, 2, L > 4 ? ends : all, L > 4 ? l2 : l1);
            sc(4, 3, L > 4 ? std::vector<size_t>{1, L - 1, L + 1} : ends, L > 4 ? " (1, almost a block, more than a block)" : l2);
            sc(2, 4, ends, l2);
        }
        // many blocks
        sc(2, 1, {5 * L, 5 * L + 1, 255 * L, 256 * L + 1, 258 * L - 1}, " (up to 258 blocks)");
        sc(2, 2, {0, 3, 7 * L + 1, 20 * L}, " (up to 20 blocks)");
        if (t) {
            sc(2, 3, all, l1);
            sc(4, 3, ends, l2);
            sc(2, 5, ends, l2);
            sc(6, 2, ends, l2);
        }
    }
};
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
#ifdef P17_ROCKS
    Dut<pl::RocksDBPlutoParams<64>>::add("RocksDB, 64-byte pages");
    Dut<pl::RocksDBPlutoParams<128>>::add("RocksDB, 128-byte pages");
#else
    Dut<pl::DefaultPlutoParams<64>>::add("cuckoo, 64-byte pages");
    Dut<pl::DefaultPlutoParams<128>>::add("cuckoo, 128-byte pages");
#endif
}
