// Stand-in for the (absent) OpenSSE crypto library: every primitive is an
// ideal function, i.e. a deterministic mixing function of its inputs, fast
// and without any relation between outputs of different inputs.
//  * A harness can install `oracle` to choose outputs itself (for instance
//    to enumerate all placements a hash function could produce).
//  * With `recording` on, every output is registered with the inputs it was
//    derived from, so that a harness can decide what an observer can derive.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace standin {

using Bytes = std::string;

// fn: name of the primitive; key, in: its inputs; the oracle returns true when
// it has filled out[0..n)
using Oracle = std::function<
    bool(const char* fn, const Bytes& key, const Bytes& in, uint8_t* out, size_t n)>;

// What an observer can compute: the values registered while recording is on,
// with the ways to compute them from each other.  A string which is not
// registered is public unless registered values are in it.
class Knowledge
{
public:
    void clear();
    // register a value of which nobody knows anything, e.g. a key
    int secret(const Bytes& v);
    // register a way to obtain `out`: all of `from` are needed
    void derivation(const Bytes& out, const std::vector<Bytes>& from);
    // all registered values in x are now known, and what follows from them
    void observe(const Bytes& x);
    // is it registered (-1: no); known
    int  find(const Bytes& x) const;
    int  find_prefix(const uint8_t* p, size_t n) const; // n >= 8
    bool known(int id) const
    {
        return known_[id];
    }
    // can x be computed
    bool         derivable(const Bytes& x) const;
    const Bytes& value(int id) const
    {
        return values_[id];
    }
    size_t size() const
    {
        return values_.size();
    }

private:
    struct Way
    {
        int              out;
        size_t           missing;
        std::vector<int> from;
    };
    int              intern(const Bytes& v);
    void             parts(const Bytes& x, std::vector<int>& out) const;
    void             learn(int id);
    std::map<Bytes, int>           ids_;
    std::map<uint64_t, std::vector<int>> prefix_;
    std::vector<Bytes>             values_;
    std::vector<bool>              known_;
    std::vector<std::vector<int>>  uses_; // value -> ways which need it
    std::vector<Way>               ways_;
    std::set<std::pair<int, std::vector<int>>> seen_;
};

struct World
{
    Oracle                                   oracle;
    bool                                     recording{false};
    bool                                     observing{false}; // by the observer itself
    Knowledge                                knowledge;
    uint64_t                                 random_counter{0};
    int                                      random_byte{-1}; // found in all random values
    std::mutex                               mtx;
};

World& world();
void   reset_world(); // forget everything, restart the random generator

// out[0..n) = fn(key, in)
void ideal(const char* fn, const Bytes& key, const Bytes& in, uint8_t* out, size_t n);
// the same, whatever the oracle and without being registered
void plain_ideal(const char* fn, const Bytes& key, const Bytes& in, uint8_t* out, size_t n);
// register another way to obtain `out`
void record(const char* fn, const Bytes& out, const std::vector<Bytes>& from);
void random_fill(uint8_t* out, size_t n);

template<class C>
Bytes bytes(const C& c)
{
    return Bytes(reinterpret_cast<const char*>(c.data()), c.size());
}
inline Bytes bytes(const void* p, size_t n)
{
    return Bytes(reinterpret_cast<const char*>(p), n);
}

} // namespace standin
