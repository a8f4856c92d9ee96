#pragma once
#include <sse/crypto/ideal.hpp>
#include <sse/crypto/random.hpp> // (as the original does)

namespace sse {
namespace crypto {

// Like the original: not copyable, built by erasing its source, empty once
// moved from.
template<size_t N>
class Key
{
public:
    static constexpr size_t kKeySize = N;

    Key() : set_(true)
    {
        standin::random_fill(content_.data(), N);
    }
    explicit Key(uint8_t* const src) : set_(src != nullptr)
    {
        if (src == nullptr) {
            throw std::invalid_argument("Invalid key: key == nullptr");
        }
        memcpy(content_.data(), src, N);
        memset(src, 0, N);
    }
    Key(const Key&) = delete;
    Key& operator=(const Key&) = delete;
    Key(Key&& k) noexcept : content_(k.content_), set_(k.set_)
    {
        k.content_.fill(0);
        k.set_ = false;
    }
    Key& operator=(Key&& k) noexcept
    {
        if (this != &k) {
            content_ = k.content_;
            set_     = k.set_;
            k.content_.fill(0);
            k.set_ = false;
        }
        return *this;
    }

    bool is_empty() const
    {
        return !set_;
    }
    // stand-ins only
    standin::Bytes raw() const
    {
        if (!set_) {
            throw std::runtime_error("stand-in: use of an empty key");
        }
        return standin::bytes(content_);
    }

private:
    std::array<uint8_t, N> content_{};
    bool                   set_;
};

} // namespace crypto
} // namespace sse
