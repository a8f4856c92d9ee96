#pragma once
#include <sse/crypto/hash.hpp> // (as the original does)
#include <sse/crypto/key.hpp>

namespace sse {
namespace crypto {

template<uint16_t NBYTES>
class Prf
{
public:
    static constexpr uint8_t kKeySize = 32;
    static_assert(NBYTES > 0, "invalid output size");

    Prf() = default;
    explicit Prf(Key<kKeySize>&& key) : key_(std::move(key))
    {
        if (key_.is_empty()) {
            throw std::invalid_argument("stand-in: empty PRF key");
        }
    }
    Prf(const Prf&) = delete;
    Prf& operator=(const Prf&) = delete;
    Prf(Prf&&) noexcept        = default;
    Prf& operator=(Prf&&) noexcept = default;

    std::array<uint8_t, NBYTES> prf(const unsigned char* in, size_t length) const
    {
        std::array<uint8_t, NBYTES> out;
        standin::ideal("prf", key_.raw(), standin::bytes(in, length), out.data(), NBYTES);
        return out;
    }
    std::array<uint8_t, NBYTES> prf(const std::string& s) const
    {
        return prf(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }
    template<size_t L>
    std::array<uint8_t, NBYTES> prf(const std::array<uint8_t, L>& in) const
    {
        return prf(in.data(), L);
    }
    Key<NBYTES> derive_key(const unsigned char* in, size_t length) const
    {
        auto out = prf(in, length);
        return Key<NBYTES>(out.data());
    }
    Key<NBYTES> derive_key(const std::string& s) const
    {
        auto out = prf(s);
        return Key<NBYTES>(out.data());
    }
    template<size_t L>
    Key<NBYTES> derive_key(const std::array<uint8_t, L>& in) const
    {
        auto out = prf(in);
        return Key<NBYTES>(out.data());
    }

private:
    Key<kKeySize> key_;
};

} // namespace crypto
} // namespace sse
