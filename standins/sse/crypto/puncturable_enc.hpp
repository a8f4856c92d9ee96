// Ideal puncturable encryption.  As in the original scheme, a key punctured d
// times consists of the initial share for d punctures and of the shares of the
// punctures 1..d, each exactly once; with any other set of shares, decryption
// yields garbage.
#pragma once
#include <sse/crypto/prf.hpp>

namespace sse {
namespace crypto {
namespace punct {

constexpr size_t kMasterKeySize  = 32;
constexpr size_t kTagSize        = 16;
constexpr size_t kShareSize      = 16 + 8 + kTagSize + 1; // key id, number, tag (padded)
constexpr size_t kCiphertextSize = 16 + kTagSize + 8; // nonce, tag, masked

using tag_type           = std::array<uint8_t, kTagSize>;
using key_share_type     = std::array<uint8_t, kShareSize>;
using ciphertext_type    = std::array<uint8_t, kCiphertextSize>;
using punctured_key_type = std::vector<key_share_type>;

tag_type extract_tag(const ciphertext_type& ct);
tag_type extract_tag(const key_share_type& ks);

} // namespace punct

class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& key);
    punct::ciphertext_type encrypt(const uint64_t m, const punct::tag_type& tag);
    punct::key_share_type  initial_keyshare(const size_t d);
    punct::key_share_type  inc_puncture(const size_t d, const punct::tag_type& tag);

private:
    standin::Bytes key_;
};

class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& key) : key_(key)
    {
    }
    bool is_punctured_on_tag(const punct::tag_type& tag) const;
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m) const;

private:
    punct::punctured_key_type key_;
};

} // namespace crypto
} // namespace sse
