// An ideal trapdoor permutation: anybody can compute both directions here, but
// only the forward direction is registered as derivable from the public key.
#pragma once
#include <sse/crypto/prf.hpp>

namespace sse {
namespace crypto {

class Tdp
{
public:
    static constexpr size_t kMessageSize = 40;
    static constexpr size_t kRSAPrfSize  = kMessageSize + 8;
    using message_type                   = std::array<uint8_t, kMessageSize>;

    explicit Tdp(const std::string& pk) : pk_(pk)
    {
        if (pk.size() != kPkSize || pk.compare(0, 3, "PK:") != 0) {
            throw std::runtime_error("stand-in: invalid public key");
        }
    }
    virtual ~Tdp() = default;
    std::string public_key() const
    {
        return pk_;
    }
    message_type eval(const message_type& in) const;

    // stand-ins only
    static constexpr size_t kPkSize = 4 + 2 * 33;
    static message_type     forward(const std::string& pk, const message_type& in);
    static message_type     backward(const std::string& pk, const message_type& in);

protected:
    Tdp() = default;
    std::string pk_;
};

class TdpInverse : public Tdp
{
public:
    TdpInverse();
    explicit TdpInverse(const std::string& sk);
    std::string private_key() const
    {
        return sk_;
    }
    message_type generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const;
    message_type invert(const message_type& in) const
    {
        return invert_mult(in, 1);
    }
    message_type invert_mult(const message_type& in, uint32_t order) const;

private:
    std::string sk_;
};

class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, const uint8_t size) : Tdp(pk), max_(size)
    {
        if (size == 0) {
            throw std::invalid_argument("Invalid Multiple TDP pool input size");
        }
    }
    using Tdp::eval;
    message_type eval(const message_type& in, const uint8_t order) const;
    uint8_t      maximum_order() const
    {
        return max_;
    }

private:
    uint8_t max_;
};

} // namespace crypto
} // namespace sse
