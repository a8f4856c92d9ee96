// Range-constrained PRF: a GGM tree over the ideal PRG.
#pragma once
#include <sse/crypto/prg.hpp>

#include <functional>
#include <vector>

namespace sse {
namespace crypto {

template<uint16_t NBYTES>
class RCPrf;

namespace ggm {
inline void child(const uint8_t* parent, size_t n, int bit, uint8_t* out)
{
    standin::ideal("ggm", standin::bytes(parent, n), bit ? "1" : "0", out, n);
}
} // namespace ggm

template<uint16_t NBYTES>
class ConstrainedRCPrf
{
public:
    using node_type = std::array<uint8_t, NBYTES>;
    struct Elt
    {
        node_type node;
        uint8_t   height;          // subtree covers [min, min + 2^height)
        uint64_t  min;
    };

    explicit ConstrainedRCPrf(std::vector<Elt>&& e) : elts_(std::move(e))
    {
    }
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf(const ConstrainedRCPrf&)                = delete;
    ConstrainedRCPrf& operator=(const ConstrainedRCPrf&) = delete;

    uint64_t min_leaf() const
    {
        return elts_.empty() ? 0 : elts_.front().min;
    }
    uint64_t max_leaf() const
    {
        return elts_.empty()
                   ? 0
                   : elts_.back().min + ((uint64_t)1 << elts_.back().height) - 1;
    }
    node_type eval(uint64_t leaf) const
    {
        for (const Elt& e : elts_) {
            if (leaf >= e.min && leaf - e.min < ((uint64_t)1 << e.height)) {
                node_type cur = e.node;
                for (int h = e.height - 1; h >= 0; h--) {
                    node_type next;
                    ggm::child(cur.data(), NBYTES, ((leaf - e.min) >> h) & 1, next.data());
                    cur = next;
                }
                return cur;
            }
        }
        throw std::out_of_range("Invalid node index: leaf not in the range");
    }
    void eval_range(uint64_t                                        min,
                    uint64_t                                        max,
                    const std::function<void(uint64_t, node_type)>& callback) const
    {
        if (min > max) {
            throw std::invalid_argument("Invalid range: min > max");
        }
        if (elts_.empty() || min < min_leaf() || max > max_leaf()) {
            throw std::out_of_range("Invalid range: outside of the constrained range");
        }
        for (uint64_t l = min;; l++) {
            callback(l, eval(l));
            if (l == max) {
                break;
            }
        }
    }
    const std::vector<Elt>& elements() const
    {
        return elts_;
    }

private:
    std::vector<Elt> elts_;
};

template<uint16_t NBYTES>
class RCPrf
{
public:
    using node_type                  = std::array<uint8_t, NBYTES>;
    static constexpr uint8_t kKeySize = 32;

    RCPrf(Key<kKeySize>&& key, uint8_t height) : height_(height)
    {
        standin::Bytes k = key.raw();
        Key<kKeySize>  used(std::move(key));
        standin::ideal("rcprf-root", k, "", root_.data(), NBYTES);
        if (height == 0 || height > 63) {
            throw std::invalid_argument("Invalid tree height");
        }
    }
    node_type eval(uint64_t leaf) const
    {
        if (leaf >> height_) {
            throw std::out_of_range("Invalid leaf: leaf >= 2^height");
        }
        return node(leaf, 0);
    }
    ConstrainedRCPrf<NBYTES> constrain(uint64_t min, uint64_t max) const
    {
        if (min > max) {
            throw std::invalid_argument("Invalid range: min > max");
        }
        if (max >> height_) {
            throw std::out_of_range("Invalid range: max >= 2^height");
        }
        std::vector<typename ConstrainedRCPrf<NBYTES>::Elt> elts;
        cover(0, height_, min, max, elts);
        return ConstrainedRCPrf<NBYTES>(std::move(elts));
    }

private:
    // node of the given height above leaf `leaf`
    node_type node(uint64_t leaf, int height) const
    {
        node_type cur = root_;
        for (int h = height_ - 1; h >= height; h--) {
            node_type next;
            ggm::child(cur.data(), NBYTES, (leaf >> h) & 1, next.data());
            cur = next;
        }
        return cur;
    }
    void cover(uint64_t                                             first,
               int                                                  h,
               uint64_t                                             min,
               uint64_t                                             max,
               std::vector<typename ConstrainedRCPrf<NBYTES>::Elt>& out) const
    {
        uint64_t last = first + (((uint64_t)1 << h) - 1);
        if (last < min || first > max) {
            return;
        }
        if (min <= first && last <= max) {
            out.push_back({node(first, h), (uint8_t)h, first});
            return;
        }
        cover(first, h - 1, min, max, out);
        cover(first + ((uint64_t)1 << (h - 1)), h - 1, min, max, out);
    }
    node_type root_;
    uint8_t   height_;
};

} // namespace crypto
} // namespace sse
