#pragma once
#include <sse/crypto/ideal.hpp>

namespace sse {
namespace crypto {

template<typename T, size_t N>
inline std::array<T, N> random_bytes()
{
    std::array<T, N> out;
    standin::random_fill(reinterpret_cast<uint8_t*>(out.data()), N * sizeof(T));
    return out;
}
inline std::string random_string(size_t n)
{
    std::string s(n, 0);
    standin::random_fill(reinterpret_cast<uint8_t*>(&s[0]), n);
    return s;
}

} // namespace crypto
} // namespace sse
