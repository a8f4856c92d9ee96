// Authenticated wrapping of a constrained RCPRF (the only use).
#pragma once
#include <sse/crypto/prf.hpp>
#include <sse/crypto/rcprf.hpp>

namespace sse {
namespace crypto {

class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& key) : key_(std::move(key))
    {
        if (key_.is_empty()) {
            throw std::invalid_argument("stand-in: empty wrapping key");
        }
    }
    template<uint16_t N>
    std::vector<uint8_t> wrap(const ConstrainedRCPrf<N>& c)
    {
        standin::Bytes b;
        for (const auto& e : c.elements()) {
            b.append(reinterpret_cast<const char*>(e.node.data()), N);
            b.append(1, (char)e.height);
            b.append(reinterpret_cast<const char*>(&e.min), 8);
        }
        uint8_t tag[16];
        standin::ideal("wrap-tag", key_.raw(), b, tag, 16);
        std::vector<uint8_t> out(tag, tag + 16);
        std::vector<uint8_t> mask(b.size());
        if (!b.empty()) {
            standin::ideal("wrap-mask", key_.raw(), standin::bytes(tag, 16), mask.data(), b.size());
        }
        for (size_t i = 0; i < b.size(); i++) {
            out.push_back((uint8_t)b[i] ^ mask[i]);
        }
        return out;
    }
    template<class CryptoClass>
    CryptoClass unwrap(std::vector<uint8_t>& in)
    {
        CryptoClass r = open(in, static_cast<CryptoClass*>(nullptr));
        std::fill(in.begin(), in.end(), 0);
        return r;
    }

private:
    template<uint16_t N>
    ConstrainedRCPrf<N> open(const std::vector<uint8_t>& in, ConstrainedRCPrf<N>*)
    {
        using Elt = typename ConstrainedRCPrf<N>::Elt;
        if (in.size() < 16 || (in.size() - 16) % (N + 9) != 0) {
            throw std::invalid_argument("stand-in: invalid wrapped object");
        }
        standin::Bytes b;
        std::vector<uint8_t> mask(in.size() - 16);
        if (!mask.empty()) {
            standin::ideal("wrap-mask", key_.raw(), standin::bytes(in.data(), 16), mask.data(), mask.size());
        }
        for (size_t i = 16; i < in.size(); i++) {
            b.push_back((char)(in[i] ^ mask[i - 16]));
        }
        uint8_t tag[16];
        standin::ideal("wrap-tag", key_.raw(), b, tag, 16);
        if (memcmp(tag, in.data(), 16) != 0) {
            throw std::runtime_error("stand-in: unwrapping failed");
        }
        std::vector<Elt> elts;
        for (size_t i = 0; i < b.size(); i += N + 9) {
            Elt e;
            memcpy(e.node.data(), b.data() + i, N);
            e.height = (uint8_t)b[i + N];
            memcpy(&e.min, b.data() + i + N + 1, 8);
            elts.push_back(e);
        }
        return ConstrainedRCPrf<N>(std::move(elts));
    }
    Key<kKeySize> key_;
};

} // namespace crypto
} // namespace sse
