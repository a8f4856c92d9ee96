// Shared by the harnesses of Pluto and Tethys (P17, P18).
#pragma once
#include "tethys_common.h"

#include <sse/crypto/ideal.hpp>
#include <sse/schemes/tethys/details/tethys_utils.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <fstream>
#include <iostream>
#include <list>
#include <map>

namespace sc {
using namespace ts;
using Ids   = std::vector<uint64_t>;
using Token = search_token_type;

// The keywords: short, empty, with a zero byte, one the prefix of another.
inline const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"kw", "", "kw1", std::string("k\0w", 3), "other"};
    return n;
}
inline std::array<uint8_t, 32> secret(uint8_t b)
{
    std::array<uint8_t, 32> k;
    k.fill(b);
    return k;
}
inline sse::crypto::Key<32> master_key()
{
    auto k = secret(0x33);
    return sse::crypto::Key<32>(k.data());
}
inline Token token_of(const std::string& kw)
{
    return master_prf_type(master_key()).prf(kw);
}
// values which are easily confused with lengths, padding and dummies come first
inline uint64_t value(size_t kw, size_t i)
{
    if (i == 0)
        return kw % 2 ? ~0UL : 0;
    if (i == 1)
        return 1 + kw;
    return 0xABCD0000ull + kw * 0x100 + i;
}
inline Ids values(size_t kw, size_t n)
{
    Ids r;
    for (size_t i = 0; i < n; i++)
        r.push_back(value(kw, i));
    return r;
}
inline std::string show(const Ids& v)
{
    std::string o = "[";
    for (auto x : v)
        o += " " + s(x);
    return o + " ]";
}

// Chooses the two places of the keys derived from tokens: the hash function
// of (token, block number) is an oracle.
struct Placement
{
    size_t                                                     g;
    std::map<std::pair<Token, uint64_t>, std::pair<size_t, size_t>> at;

    void install()
    {
        standin::world().oracle = [this](const char*           fn,
                                         const standin::Bytes& key,
                                         const standin::Bytes& in,
                                         uint8_t*              out,
                                         size_t                n) {
            (void)key;
            if (strcmp(fn, "hash") != 0 || in.size() != kSearchTokenSize + 8 || n < 16)
                return false;
            std::pair<Token, uint64_t> k;
            memcpy(k.first.data(), in.data(), kSearchTokenSize);
            memcpy(&k.second, in.data() + kSearchTokenSize, 8);
            auto it = at.find(k);
            if (it == at.end())
                return false;
            // unique, with the wanted remainders
            uint64_t half = g / 2, u = std::distance(at.begin(), it) + 1;
            uint64_t h[2] = {it->second.first + half * u, it->second.second + half * (3 * u + 1)};
            memset(out, 0, n);
            memcpy(out, h, 16);
            return true;
        };
    }
    ~Placement()
    {
        standin::world().oracle = nullptr;
    }
};

inline void same(const Ids& got, const Ids& expected, const std::string& what)
{
    Ids a = got, b = expected;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    MC_CHECK(a == b, what + " yields " + show(got) + " instead of " + show(expected));
    mc::validated();
}
} // namespace sc
