#pragma once
#include <sse/crypto/random.hpp>
namespace sse {
namespace crypto {
inline void init_crypto_lib()
{
}
inline void cleanup_crypto_lib()
{
}
} // namespace crypto
} // namespace sse
