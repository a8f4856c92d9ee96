#pragma once
#include <sse/crypto/ideal.hpp>

namespace sse {
namespace crypto {

class Hash
{
public:
    static constexpr size_t kDigestSize = 64;

    static void hash(const unsigned char* in, size_t len, unsigned char* digest)
    {
        standin::ideal("hash", "", standin::bytes(in, len), digest, kDigestSize);
    }
    // the original truncates the digest
    static void hash(const unsigned char* in,
                     size_t               len,
                     size_t               out_len,
                     unsigned char*       digest)
    {
        if (out_len > kDigestSize) {
            throw std::invalid_argument("Invalid output length: out_len > kDigestSize");
        }
        std::array<uint8_t, kDigestSize> d;
        hash(in, len, d.data());
        memcpy(digest, d.data(), out_len);
        if (out_len < kDigestSize && standin::world().recording) {
            standin::record(
                "truncate", standin::bytes(digest, out_len), {standin::bytes(d)});
        }
    }
    static std::string hash(const std::string& in)
    {
        std::array<uint8_t, kDigestSize> d;
        hash(reinterpret_cast<const unsigned char*>(in.data()), in.size(), d.data());
        return std::string(d.begin(), d.end());
    }
};

} // namespace crypto
} // namespace sse
