// P18: every small inverted index through Tethys, for every placement of the
// blocks of the lists in the table; what the server stores is encrypted.
#include "scheme_common.h"

#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>

namespace {
using namespace sc;

std::string path(const char* n)
{
    return mc::scratch() + "/" + n;
}

template<size_t PAGE>
struct Dut
{
    using Enc     = encoders::EncodeSeparateEncoder<tethys_core_key_type, index_type, PAGE>;
    using Dec     = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, PAGE>;
    using Builder = TethysBuilder<PAGE, Enc>;
    using Server  = TethysServer<tethys_server_store_type<PAGE>>;
    using Client  = TethysClient<Dec>;
    static constexpr size_t L = Builder::tethys_store_type::kMaxListSize;

    enum How
    {
        Lists,
        File,
    };

    static void clean()
    {
        unlink(path("table").c_str());
        unlink(path("stash").c_str());
        if (sse::utility::is_directory(path("counters")))
            sse::utility::remove_directory(path("counters"));
    }
    static std::string name(How how, size_t i)
    {
        return how == File ? "kw" + s(i) : names()[i];
    }
    static void build(size_t g, How how, const std::vector<size_t>& lens)
    {
        clean();
        TethysStoreBuilderParam p;
        p.tethys_table_path = path("table");
        p.tethys_stash_path = path("stash");
        p.epsilon           = 0;
        p.max_n_elements    = g / 2 * (PAGE / sizeof(index_type));
        MC_CHECK(p.graph_size(PAGE / 8) == g, "unexpected table size");
        Builder b(p, path("counters"), master_key(), secret(0x44));
        if (how == File) {
            std::ofstream f(path("index"));
            for (size_t i = 0; i < lens.size(); i++) {
                f << name(how, i);
                for (auto v : values(i, lens[i]))
                    f << " " << (unsigned)v;
                f << "\n";
            }
            f.close();
            MC_CHECK(b.load_inverted_index(path("index")), "the file is not loaded");
        } else {
            for (size_t i = 0; i < lens.size(); i++) {
                auto v = values(i, lens[i]);
                b.insert_list(name(how, i), std::list<uint64_t>(v.begin(), v.end()));
            }
        }
        b.build();
    }
    static std::string table()
    {
        std::ifstream f(path("table"), std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(f), {});
    }

    // places: of the blocks of all lists in turn
    static void round_trip(size_t                                        g,
                           How                                           how,
                           const std::vector<size_t>&                    lens,
                           const std::vector<std::pair<size_t, size_t>>& places,
                           bool                                          secrecy)
    {
        standin::reset_world();
        Placement place;
        place.g     = g;
        std::string at = " (blocks of " + s(L) + ", " + s(g) + " buckets, " + (how == Lists ? "lists" : "file")
                         + ", lengths and buckets of the blocks:";
        size_t k = 0;
        for (size_t i = 0; i < lens.size(); i++) {
            at += " " + s(lens[i]) + " in";
            for (size_t b = 0; b <= lens[i] / L; b++, k++) {
                place.at[{token_of(name(how, i)), b}] = places[k];
                at += " " + s(places[k].first) + "," + s(places[k].second);
            }
        }
        at += ")";
        place.install();
        std::string what = "building";
        try {
            build(g, how, lens);
            what = "opening";
            {
                Server sv(path("table"));
                Client c(path("counters"), path("stash"), master_key(), secret(0x44));
                for (size_t i = 0; i < lens.size(); i++) {
                    what     = "searching keyword " + s(i);
                    auto exp = values(i, lens[i]);
                    if (how == File) {
                        for (auto& e : exp)
                            e = (unsigned)e;
                    }
                    for (int round = 0; round < 2; round++) {
                        auto req = c.search_request(name(how, i));
                        auto r   = c.decode_search_results(req, sv.search(req));
                        same(r, exp, what + at);
                    }
                }
                for (const char* u : {"unknown", "k", "kw "}) {
                    what     = "searching an unknown keyword";
                    auto req = c.search_request(u, false);
                    same(c.decode_search_results(req, sv.search(req)), {}, what + at);
                }
            }
            if (secrecy) {
                what = "reading the table";
                check_secrecy(g, how, lens, at);
            }
        } catch (const std::exception& e) {
            mc::violation(what + " throws " + e.what() + at);
        }
        mc::transitions();
    }

    // The key stream must be fresh for every word of the table: it is obtained
    // as the difference with a table built under a cipher that does nothing.
    static void check_secrecy(size_t g, How how, const std::vector<size_t>& lens, const std::string& at)
    {
        std::string cipher = table();
        {
            // another client key opens nothing
            Server sv(path("table"));
            Client c(path("counters"), path("none"), master_key(), secret(0x45));
            for (size_t i = 0; i < lens.size(); i++) {
                auto req = c.search_request(name(how, i));
                auto r   = c.decode_search_results(req, sv.search(req));
                auto v   = values(i, lens[i]);
                for (auto x : r) {
                    MC_CHECK(std::find(v.begin(), v.end(), x) == v.end(),
                             "a client with another key reads index " + s(x) + " of keyword " + s(i) + at);
                }
            }
        }
        auto oracle             = standin::world().oracle;
        standin::world().oracle = [&](const char*           fn,
                                      const standin::Bytes& key,
                                      const standin::Bytes& in,
                                      uint8_t*              out,
                                      size_t                n) {
            if (strcmp(fn, "stream") == 0) {
                memset(out, 0, n);
                return true;
            }
            return oracle(fn, key, in, out, n);
        };
        build(g, how, lens);
        standin::world().oracle = oracle;
        std::string plain       = table();
        MC_CHECK(plain.size() == cipher.size() && plain.size() >= g * PAGE, "table sizes differ" + at);
        // the plain table holds the indexes, the key stream hides each word
        std::set<uint64_t> used = {0};
        for (size_t w = 0; w + 8 <= g * PAGE; w += 8) {
            uint64_t a, b;
            memcpy(&a, plain.data() + w, 8);
            memcpy(&b, cipher.data() + w, 8);
            MC_CHECK(used.insert(a ^ b).second,
                     "word " + s(w / 8) + " of the table (page " + s(w / PAGE)
                         + ") is not encrypted, or with a key stream used elsewhere" + at);
        }
        mc::count("tables compared with their plain text");
    }

    // the lengths are choices of the explorer, the places a loop
    static void instances(size_t g, int n, const std::vector<size_t>& from, size_t max_blocks)
    {
        std::vector<size_t> lens;
        size_t              blocks = 0;
        for (int i = 0; i < n; i++) {
            lens.push_back(from[mc::choose((int)from.size(), "length")]);
            blocks += lens.back() / L + 1;
        }
        if (blocks > max_blocks)
            return;
        std::string st;
        for (auto l : lens)
            st += s(l) + " ";
        mc::state(st);
        size_t half = g / 2, per = half * half, all = 1;
        for (size_t i = 0; i < blocks; i++)
            all *= per;
        for (size_t c = 0; c < all; c++) {
            std::vector<std::pair<size_t, size_t>> places;
            size_t                                 r = c;
            for (size_t i = 0; i < blocks; i++, r /= per)
                places.push_back({r % per % half, r % per / half});
            round_trip(g, (c + blocks) % 4 == 3 ? File : Lists, lens, places, all < 64 || c % 16 == 5);
        }
    }

    static void add(const char* name)
    {
        std::vector<size_t> all, ends = {0, 1, L - 1, L, L + 1, 2 * L};
        ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
        for (size_t l = 0; l <= 2 * L + 2; l++)
            all.push_back(l);
        auto sc = [&](size_t g, int n, const std::vector<size_t>& from, size_t max_blocks, const char* lname) {
            mc::Config c;
            c.shards      = n > 1 ? 8 : 1;
            c.shard_depth = std::min(n, 2);
            mc::add(std::string(name) + ": " + s(g) + " buckets, " + s(n) + " keywords" + lname
                        + (max_blocks < 100 ? ", up to " + s(max_blocks) + " blocks" : ""),
                    c,
                    [=] { instances(g, n, from, max_blocks); });
        };
        const char* l1 = " (every length up to two blocks and more)";
        const char* l2 = " (lengths around the block size)";
        bool        t  = mc::thorough();
        sc(2, 0, all, 100, "");
        sc(2, 1, all, 100, l1);
        sc(4, 1, all, 100, l1);
        sc(2, 2, L > 4 && !t ? ends : all, 100, L > 4 && !t ? l2 : l1);
        sc(2, 3, L > 4 && !t ? std::vector<size_t>{1, L - 1, L, L + 1} : ends, 100, l2);
        sc(4, 2, ends, t ? 5 : 4, l2);
        sc(4, 3, ends, t ? 5 : 3, l2);
        sc(2, 1, {7 * L, 20 * L + 1, 256 * L - 1, 257 * L}, 1000, " (up to 258 blocks)");
        if (t) {
            sc(6, 2, ends, 3, l2);
            sc(2, 4, ends, 100, l2);
        }
    }
};
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    Dut<64>::add("64-byte pages");
    Dut<128>::add("128-byte pages");
}
