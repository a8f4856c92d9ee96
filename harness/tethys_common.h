// Shared by the harnesses of the Tethys structures (P14, P15).
#pragma once
#include "mc.h"

#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <unistd.h>

namespace ts {
using namespace sse::tethys;
template<size_t N>
using KeyOf = std::array<uint8_t, N>;

inline std::string s(size_t i)
{
    return std::to_string(i);
}
// the first 4 bytes of a key choose its first bucket, the next 4 the second one
template<size_t N>
struct Hasher
{
    details::TethysAllocatorKey operator()(const KeyOf<N>& k)
    {
        static_assert(N >= 8, "short key");
        uint32_t a, b;
        memcpy(&a, k.data(), 4);
        memcpy(&b, k.data() + 4, 4);
        details::TethysAllocatorKey tk;
        tk.h[0] = a;
        tk.h[1] = b;
        return tk;
    }
};
// a key whose candidate buckets are b0 (first half) and b1 (second half) of a
// table of g buckets; n makes it unique
template<size_t N>
KeyOf<N> make_key(size_t g, size_t b0, size_t b1, uint32_t n)
{
    uint32_t half = g / 2;
    uint32_t h[2] = {(uint32_t)b0 + half * n, (uint32_t)b1 + half * (n * 3 + 1)};
    KeyOf<N> k;
    k.fill((uint8_t)n);
    memcpy(k.data(), h, 8);
    return k;
}
} // namespace ts
