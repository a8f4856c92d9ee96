// P28: serialization round-trips and formatting helpers are exact.
#include "mc.h"
#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/utils/concat_iterator.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <deque>
#include <fstream>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace {
using namespace sse;
std::string num(uint64_t x)
{
    return std::to_string(x);
}

// ---- key-value serialization ------------------------------------------------
// A record is (length of the key, key, length of the value, value), combined
// with a mask. In the rolling version the mask depends on the number of records
// seen by this object, hence on a single object handling all of them in order.
template<bool Rolling>
struct Inner
{
    uint8_t mask = 0;
    void    put(std::ostream& o, const std::string& s)
    {
        o.put((char)(s.size() ^ 0xA5)); // first byte 0xFF for 90 bytes
        for (char c : s)
            o.put((char)(c ^ mask));
    }
    std::string get(std::istream& i)
    {
        size_t      n = (uint8_t)i.get() ^ 0xA5;
        std::string s(n, 0);
        for (auto& c : s)
            c = (char)(i.get() ^ mask);
        return s;
    }
    void serialize_key_value(std::ostream& o, const std::string& k, const std::string& v)
    {
        put(o, k);
        put(o, v);
        mask += Rolling ? 37 : 0;
    }
    std::pair<std::string, std::string> deserialize_key_value(std::istream& i)
    {
        std::string k = get(i);
        std::string v = get(i);
        mask += Rolling ? 37 : 0;
        return {k, v};
    }
};
struct KV
{
    std::string        k, v;
    const std::string& get_key() const
    {
        return k;
    }
    const std::string& get_value() const
    {
        return v;
    }
};
using Pairs = std::vector<std::pair<std::string, std::string>>;

std::string key_of(int i)
{
    switch (i) {
    case 0: return "";
    case 1: return std::string(90, 'k'); // the record starts with the byte 0xFF
    case 2: return std::string("\0\n\r\xff\x1a", 5);
    default: return "a";
    }
}
std::string val_of(int i)
{
    switch (i) {
    case 0: return "";
    case 1: return std::string(255, '\xff');
    default: return std::string("\n\0v\r\n", 5);
    }
}
std::string show(const Pairs& p)
{
    std::string o;
    for (auto& x : p)
        o += " (" + num(x.first.size()) + "," + num(x.second.size()) + ")";
    return o;
}

template<bool Rolling>
void write(std::ostream& os, const Pairs& p, int way)
{
    using In = Inner<Rolling>;
    abstractio::KVSerializer<std::string, std::string, In> ser(os);
    In                                                     in;
    switch (way) {
    case 0:
        for (auto& x : p)
            ser.serialize(x.first, x.second, in);
        break;
    case 1:
        for (auto& x : p)
            ser.serialize(KV{x.first, x.second}, in);
        break;
    case 2:
        for (auto& x : p)
            ser.serialize(x, in);
        break;
    case 3: ser.serialize_iterable(p, in); break;
    case 4: ser.serialize_iterable(std::list<std::pair<std::string, std::string>>(p.begin(), p.end())); break;
    case 5: {
        std::vector<KV> l;
        for (auto& x : p)
            l.push_back(KV{x.first, x.second});
        ser.serialize_iterable(l, in);
        break;
    }
    // one default serializer per record
    case 6:
        for (auto& x : p)
            ser.serialize(x.first, x.second);
        break;
    case 7:
        for (auto& x : p)
            ser.serialize(KV{x.first, x.second});
        break;
    default:
        for (auto& x : p)
            ser.serialize(x);
    }
}
template<bool Rolling>
Pairs read(std::istream& is, int way)
{
    using In = Inner<Rolling>;
    Pairs                                         got;
    In                                            in;
    std::function<void(std::string, std::string)> cb
        = [&](std::string k, std::string v) { got.emplace_back(std::move(k), std::move(v)); };
    if (way == 0) {
        abstractio::deserialize<std::string, std::string, In>(is, cb, in);
    } else {
        abstractio::deserialize<std::string, std::string, In>(is, cb);
    }
    return got;
}
template<bool Rolling>
void kv_one(const Pairs& p, int way, bool file)
{
    using In = Inner<Rolling>;
    std::stringstream ss;
    std::string       path = mc::scratch() + "/kv";
    if (file) {
        std::ofstream f(path, std::ios::binary | std::ios::trunc);
        write<Rolling>(f, p, way);
    } else {
        write<Rolling>(ss, p, way);
    }
    auto open = [&]() -> std::unique_ptr<std::istream> {
        if (file)
            return std::unique_ptr<std::istream>(new std::ifstream(path, std::ios::binary));
        return std::unique_ptr<std::istream>(new std::istringstream(ss.str()));
    };
    std::string what = "way " + num(way) + (file ? " on a file" : "") + (Rolling ? ", rolling" : "") + ":" + show(p);
    for (int r = 0; r < 2; r++) {
        auto  is  = open();
        Pairs got = read<Rolling>(*is, r);
        mc::validated();
        MC_CHECK(got == p, "reading (" + num(r) + ") what was written in " + what + " gives" + show(got));
    }
    std::map<std::string, std::string> want;
    for (auto& x : p)
        want[x.first] = x.second;
    {
        auto is = open();
        In   in;
        MC_CHECK((abstractio::deserialize_map<std::string, std::string, In>(*is, in) == want), "deserialize_map (a) of " + what);
    }
    {
        auto is = open();
        MC_CHECK((abstractio::deserialize_map<std::string, std::string, In>(*is) == want), "deserialize_map (b) of " + what);
    }
    mc::validated(2);
    mc::transitions(2 * p.size());
}
void kv(int max)
{
    int   n = mc::choose(max + 1, "records");
    Pairs p;
    for (int i = 0; i < n; i++) {
        int k = mc::choose(4, "key"), v = mc::choose(3, "value");
        p.emplace_back(key_of(k), val_of(v));
    }
    for (int way = 0; way < 9; way++) {
        kv_one<false>(p, way, false);
        if (way < 6) {
            kv_one<true>(p, way, false);
        }
    }
    kv_one<true>(p, 0, true);
    kv_one<false>(p, 4, true);
    mc::state(show(p));
    mc::outcome(num(n) + " records");
}
// several serializers appending to one stream
void kv_pieces()
{
    int               a = mc::choose(4, "first"), b = mc::choose(4, "second");
    Pairs             p, q;
    for (int i = 0; i < a; i++)
        p.emplace_back(key_of(i), val_of(i % 3));
    for (int i = 0; i < b; i++)
        q.emplace_back(key_of(3 - i), val_of((i + 1) % 3));
    std::stringstream ss;
    write<false>(ss, p, mc::choose(9, "way"));
    write<false>(ss, q, mc::choose(9, "way"));
    Pairs all = p;
    all.insert(all.end(), q.begin(), q.end());
    MC_CHECK(read<false>(ss, 0) == all, "two serializers on one stream");
    mc::validated();
    mc::transitions(2);
}
// numbers and vectors as keys and values
struct NumInner
{
    void serialize_key_value(std::ostream& o, const uint32_t& k, const std::vector<uint64_t>& v)
    {
        uint32_t n = v.size();
        o.write((const char*)&k, 4);
        o.write((const char*)&n, 4);
        o.write((const char*)v.data(), 8 * n);
    }
    std::pair<uint32_t, std::vector<uint64_t>> deserialize_key_value(std::istream& i)
    {
        uint32_t k = 0, n = 0;
        i.read((char*)&k, 4);
        i.read((char*)&n, 4);
        std::vector<uint64_t> v(n);
        i.read((char*)v.data(), 8 * n);
        return {k, v};
    }
};
void kv_numbers()
{
    static const uint32_t keys[] = {0, 255, 0xFFFFFFFF, 0x0a0d1aff};
    std::map<uint32_t, std::vector<uint64_t>> m;
    for (int i = 0; i < 4; i++) {
        int l = mc::choose(5, "length") - 1;
        if (l >= 0) {
            m[keys[i]] = std::vector<uint64_t>(l * l, ~0ull - i);
        }
    }
    std::stringstream                                                        ss;
    abstractio::KVSerializer<uint32_t, std::vector<uint64_t>, NumInner> ser(ss);
    ser.serialize_iterable(m);
    MC_CHECK((abstractio::deserialize_map<uint32_t, std::vector<uint64_t>, NumInner>(ss) == m), "map of " + num(m.size()) + " lists");
    mc::validated();
    mc::transitions(m.size());
}

// ---- concatenation ----------------------------------------------------------
template<class C>
void concat_one(C& a, C& b, const char* what)
{
    using V = typename C::value_type;
    std::vector<V> want(a.begin(), a.end());
    want.insert(want.end(), b.begin(), b.end());
    std::string w = std::string(what) + " of " + num(a.size()) + " and " + num(b.size()) + " elements";
    auto run = [&](auto it, auto end, bool post, const char* kind) {
        std::vector<V> got;
        while (it != end) {
            MC_CHECK(got.size() < want.size(), std::string(kind) + " over " + w + " visits more elements");
            if (post) {
                got.push_back(*it++);
            } else {
                got.push_back(*it);
                ++it;
            }
        }
        MC_CHECK(it == end, std::string(kind) + " over " + w + ": equality");
        mc::validated();
        mc::transitions(got.size());
        MC_CHECK(got == want, std::string(kind) + " over " + w + " visits other elements");
    };
    using I  = utility::concat_iterator<C>;
    using CI = utility::concat_const_iterator<C>;
    for (int post = 0; post < 2; post++) {
        run(I(a, b), I(a, b, b.end(), true), post, "iterating");
        run(I(a, b, a.begin(), false), I(a, b, b.end(), true), post, "iterating (given start)");
        run(CI(a, b), CI(a, b, b.cend(), true), post, "iterating (const)");
        run(CI(a, b, a.cbegin(), false), CI(a, b, b.cend(), true), post, "iterating (const, given start)");
    }
    // from any position
    size_t i = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++i) {
        size_t j = 0;
        for (I x(a, b, it, true); x != I(a, b, b.end(), true); ++x)
            j++;
        MC_CHECK(j == b.size() - i, "iterating from the second container over " + w);
    }
    // writing through the iterator
    i = 0;
    for (I x(a, b); i < want.size(); ++x)
        *x = V(1000 + i++);
    i = 0;
    for (auto& x : a)
        MC_CHECK(x == V(1000 + i++), "writing over " + w);
    for (auto& x : b)
        MC_CHECK(x == V(1000 + i++), "writing over " + w);
}
template<class C>
void concat(const char* what, bool same)
{
    int n = mc::choose(5, "first"), m = mc::choose(5, "second");
    C   a, b;
    for (int i = 0; i < n; i++)
        a.push_back(same ? 7 : 10 + i);
    for (int i = 0; i < m; i++)
        b.push_back(same ? 7 : 20 + i);
    concat_one(a, b, what);
    if (n == m) {
        // a container with itself
        std::vector<typename C::value_type> want(a.begin(), a.end());
        want.insert(want.end(), a.begin(), a.end());
        size_t k = 0;
        for (utility::concat_const_iterator<C> x(a, a), e(a, a, a.cend(), true); x != e; ++x) {
            MC_CHECK(k < want.size() && *x == want[k], std::string(what) + " concatenated with itself");
            k++;
        }
        MC_CHECK(k == want.size(), std::string(what) + " concatenated with itself: " + num(k) + " elements");
    }
    mc::outcome(num(n + m));
}
template<size_t N, size_t M>
void concat_adjacent()
{
    // the second container ends where the first one starts, and conversely
    struct
    {
        std::array<int, N> x;
        std::array<int, N> y;
    } s;
    for (size_t i = 0; i < N; i++) {
        s.x[i] = i;
        s.y[i] = 100 + i;
    }
    concat_one(s.y, s.x, "adjacent arrays, second first,");
    concat_one(s.x, s.y, "adjacent arrays");
}

// ---- formatting ---------------------------------------------------------------
std::string ref_hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string        o;
    for (size_t i = 0; i < n; i++) {
        o += d[p[i] >> 4];
        o += d[p[i] & 15];
    }
    return o;
}
std::string ref_num(uint64_t v, int bytes)
{
    uint8_t b[8];
    for (int i = 0; i < bytes; i++)
        b[i] = v >> (8 * (bytes - 1 - i));
    return ref_hex(b, bytes);
}
void hex_bytes(const std::string& s)
{
    std::string want = ref_hex((const uint8_t*)s.data(), s.size());
    MC_CHECK(utility::hex_string(s) == want, "hex_string of " + want + " is " + utility::hex_string(s));
    std::ostringstream o;
    MC_CHECK(&utility::print_hex(o, s) == &o && o.str() == want, "print_hex of " + want + " is " + o.str());
    mc::validated(2);
}
template<size_t N>
void hex_arr(const uint8_t* p)
{
    std::array<uint8_t, N> a;
    std::array<int8_t, N>  b;
    std::array<char, N>    c;
    std::copy(p, p + N, a.begin());
    std::copy(p, p + N, b.begin());
    std::copy(p, p + N, c.begin());
    std::string want = ref_hex(p, N);
    MC_CHECK(utility::hex_string(a) == want, "hex_string of array " + want + " is " + utility::hex_string(a));
    MC_CHECK(utility::hex_string(b) == want, "hex_string of signed array " + want + " is " + utility::hex_string(b));
    MC_CHECK(utility::hex_string(c) == want, "hex_string of char array " + want + " is " + utility::hex_string(c));
    std::ostringstream o;
    utility::print_hex(o, a);
    MC_CHECK(o.str() == want, "print_hex of array " + want + " is " + o.str());
    mc::validated(4);
}
template<class T>
void hex_wide(T v)
{
    std::array<T, 3> a{v, 0, (T)~v};
    std::string      want = ref_num((uint64_t)v, sizeof(T)) + ref_num(0, sizeof(T)) + ref_num((uint64_t)(T)~v, sizeof(T));
    MC_CHECK(utility::hex_string(a) == want, "hex_string of the array of " + num(8 * sizeof(T)) + "-bit values " + want + " is " + utility::hex_string(a));
    mc::validated();
}
void formatting()
{
    int hi = mc::choose(256, "first byte");
    // all strings of one and two bytes, and each value at each place of longer ones
    hex_bytes(std::string(1, (char)hi));
    uint8_t b1[1] = {(uint8_t)hi};
    hex_arr<1>(b1);
    for (int lo = 0; lo < 256; lo++) {
        uint8_t b[2] = {(uint8_t)hi, (uint8_t)lo};
        hex_bytes(std::string((char*)b, 2));
        hex_arr<2>(b);
        hex_wide<uint16_t>(hi << 8 | lo);
    }
    for (int fill : {0, 0x7f, 0xff, 0x0a}) {
        uint8_t b[33];
        for (int i = 0; i < 33; i++) {
            memset(b, fill, sizeof b);
            b[i] = hi;
            hex_bytes(std::string((char*)b, 33));
            if (i < 16)
                hex_arr<16>(b);
            if (i < 32)
                hex_arr<32>(b);
        }
    }
    hex_bytes("");
    hex_arr<0>(b1);
    // several values printed on one stream
    std::ostringstream o;
    utility::print_hex(o, std::string(1, (char)hi));
    utility::print_hex(o, std::array<uint8_t, 1>{{(uint8_t)hi}});
    utility::print_hex(utility::print_hex(o, std::string()), std::string(2, (char)hi));
    std::string h = ref_hex(b1, 1);
    MC_CHECK(o.str() == h + h + h + h, "printing on one stream gives " + o.str());
    mc::transitions(256);
}
void numbers()
{
    int      byte = mc::choose(256, "byte"), at = mc::choose(8, "position");
    for (uint64_t fill : std::initializer_list<uint64_t>{0ull, ~0ull, 0x0123456789abcdefull, 0x8000000000000000ull, 0x00000000ffffffffull}) {
        uint64_t v = (fill & ~(0xffull << (8 * at))) | ((uint64_t)byte << (8 * at));
        MC_CHECK(utility::hex_string(v) == ref_num(v, 8), "hex_string of " + ref_num(v, 8) + " is " + utility::hex_string(v));
        uint32_t u = (uint32_t)(v >> (at >= 4 ? 32 : 0));
        MC_CHECK(utility::hex_string(u) == ref_num(u, 4), "hex_string of " + ref_num(u, 4) + " is " + utility::hex_string(u));
        hex_wide<uint32_t>(u);
        hex_wide<int32_t>((int32_t)u);
        hex_wide<uint64_t>(v);
        mc::validated(2);
        mc::transitions();
        // masks
        for (uint64_t m : std::initializer_list<uint64_t>{0ull, ~0ull, 0x0123456789abcdefull, 0xff00000000000001ull, fill}) {
            auto masked = [&](auto a) {
                for (size_t i = 0; i < a.size(); i++)
                    a[i] = i < 8 ? (uint8_t)(m >> (56 - 8 * i)) : 0x5a;
                uint64_t x = utility::xor_mask(v, a);
                MC_CHECK(x == (v ^ m), "masking " + ref_num(v, 8) + " with " + ref_num(m, 8) + " gives " + ref_num(x, 8));
                MC_CHECK(utility::xor_mask(x, a) == v, "masking " + ref_num(v, 8) + " twice with " + ref_num(m, 8));
                mc::validated(2);
            };
            masked(std::array<uint8_t, 8>());
            masked(std::array<uint8_t, 9>());
            masked(std::array<uint8_t, 32>());
        }
    }
}
} // namespace

void mc_register()
{
    if (!getenv("MC_LOG"))
        sse::logger::set_logger(nullptr);
    mc::Config c;
    c.shards      = 8;
    c.shard_depth = 2;
    mc::Config one;
    mc::add("records", c, [] { kv(mc::tier_pick(4, 5)); });
    mc::add("records in pieces", one, [] { kv_pieces(); });
    mc::add("numeric records", one, [] { kv_numbers(); });
    mc::add("concatenated vectors", one, [] { concat<std::vector<int>>("vectors", false); });
    mc::add("concatenated lists", one, [] { concat<std::list<uint64_t>>("lists", false); });
    mc::add("concatenated deques, equal elements", one, [] { concat<std::deque<int>>("deques", true); });
    mc::add("concatenated arrays", one, [] {
        switch (mc::choose(4, "size")) {
        case 0: concat_adjacent<1, 1>(); break;
        case 1: concat_adjacent<2, 2>(); break;
        case 2: concat_adjacent<3, 3>(); break;
        default: concat_adjacent<4, 4>();
        }
    });
    c.shard_depth = 1;
    mc::add("formatting of bytes", c, [] { formatting(); });
    mc::add("numbers and masks", one, [] { numbers(); });
}
