#pragma once
#include <sse/crypto/key.hpp>

namespace sse {
namespace crypto {

class Prg
{
public:
    static constexpr uint8_t kKeySize = 32;

    explicit Prg(Key<kKeySize>&& key) : key_(std::move(key))
    {
        if (key_.is_empty()) {
            throw std::invalid_argument("stand-in: empty PRG key");
        }
    }
    // bytes [offset, offset+len) of the key stream (an output is registered as
    // a whole, which is how the schemes use it)
    void derive(size_t offset, size_t len, unsigned char* out) const
    {
        standin::Bytes key = key_.raw();
        size_t         blk = offset / 16, pos = 0;
        size_t         skip = offset % 16;
        while (pos < len) {
            uint8_t  b[16];
            uint64_t ctr = blk++;
            bool     rec = standin::world().recording;
            (void)rec;
            standin::ideal("prg", key, standin::bytes(&ctr, 8), b, 16);
            for (; skip < 16 && pos < len; ++skip) {
                out[pos++] = b[skip];
            }
            skip = 0;
        }
        if (standin::world().recording) {
            standin::record("prg", standin::bytes(out, len), {key});
        }
    }
    void derive(size_t len, unsigned char* out) const
    {
        derive(0, len, out);
    }

private:
    Key<kKeySize> key_;
};

} // namespace crypto
} // namespace sse
