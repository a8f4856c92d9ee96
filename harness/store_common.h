// Shared by P01-P04: a fault-injecting layer between the store wrappers and
// the real RocksDB, put in place by interposing rocksdb::DB::Open.
#pragma once
#include "mc.h"
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <rocksdb/utilities/stackable_db.h>

#include <sys/stat.h>

#include <map>
#include <memory>

namespace faultdb {
// called before every access; returns the kind of failure (0: none)
extern std::function<int(bool write)> g_fault;
extern uint64_t                       g_failed;
} // namespace faultdb

namespace store {
inline std::string s(uint64_t x)
{
    return std::to_string(x);
}
inline std::string hex(const std::string& k)
{
    std::string o;
    char        b[4];
    for (unsigned char c : k) {
        snprintf(b, sizeof b, "%02x", c);
        o += b;
    }
    return o.empty() ? "(empty)" : o;
}
// remove a store's directory
void wipe(const std::string& dir);

// Enumerate all words of length `len` over `ops` letters: word number i.
inline std::vector<int> word(uint64_t i, int len, int ops)
{
    std::vector<int> w(len);
    for (int j = len - 1; j >= 0; j--) {
        w[j] = i % ops;
        i /= ops;
    }
    return w;
}
inline uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}
} // namespace store
