#include <sse/crypto/ideal.hpp>
#include <sse/crypto/puncturable_enc.hpp>
#include <sse/crypto/tdp.hpp>
#include <sodium/crypto_stream_chacha20.h>

namespace standin {

World& world()
{
    static World* w = new World;
    return *w;
}

void reset_world()
{
    World& w = world();
    w.oracle = nullptr;
    w.recording = false;
    w.observing = false;
    w.knowledge.clear();
    w.random_counter = 0;
    w.random_byte    = -1;
}

namespace {
inline uint64_t mix(uint64_t x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebULL;
    x ^= x >> 31;
    return x;
}
struct Sponge
{
    uint64_t a{0x243f6a8885a308d3ULL}, b{0x13198a2e03707344ULL};
    void     word(uint64_t w)
    {
        a = mix(a ^ w) + b;
        b = mix(b + (w ^ 0x9e3779b97f4a7c15ULL)) ^ a;
    }
    void absorb(const char* p, size_t n)
    {
        word(n);
        while (n > 0) {
            uint64_t w = 0;
            size_t   k = n < 8 ? n : 8;
            memcpy(&w, p, k);
            word(w);
            p += k;
            n -= k;
        }
    }
    void squeeze(uint8_t* out, size_t n)
    {
        for (uint64_t i = 0; n > 0; i++) {
            uint64_t w = mix(a + 0x9e3779b97f4a7c15ULL * (i + 1)) ^ mix(b ^ (i * 0xda942042e4dd58b5ULL));
            size_t   k = n < 8 ? n : 8;
            memcpy(out, &w, k);
            out += k;
            n -= k;
        }
    }
};
} // namespace

void plain_ideal(const char* fn, const Bytes& key, const Bytes& in, uint8_t* out, size_t n)
{
    Sponge s;
    s.absorb(fn, strlen(fn));
    s.absorb(key.data(), key.size());
    s.absorb(in.data(), in.size());
    s.word(n);
    s.squeeze(out, n);
}

void ideal(const char* fn, const Bytes& key, const Bytes& in, uint8_t* out, size_t n)
{
    World& w = world();
    if (!w.oracle || !w.oracle(fn, key, in, out, n)) {
        plain_ideal(fn, key, in, out, n);
    }
    if (w.recording) {
        std::vector<Bytes> from;
        if (!key.empty()) {
            from.push_back(key);
        }
        from.push_back(in);
        record(fn, Bytes(reinterpret_cast<char*>(out), n), from);
    }
}

void record(const char* fn, const Bytes& out, const std::vector<Bytes>& from)
{
    World& w = world();
    if (!w.recording) {
        return;
    }
    std::lock_guard<std::mutex> g(w.mtx);
    (void)fn;
    w.knowledge.derivation(out, from);
    if (w.observing) {
        w.knowledge.observe(out);
        for (const auto& f : from) {
            w.knowledge.observe(f);
        }
    }
}

void random_fill(uint8_t* out, size_t n)
{
    World& w = world();
    Sponge s;
    {
        std::lock_guard<std::mutex> g(w.mtx);
        s.word(++w.random_counter);
    }
    s.word(0x72616e646f6dULL);
    s.squeeze(out, n);
    if (w.random_byte >= 0 && n > 0) {
        // first, last and every third byte
        for (size_t i = 0; i < n; i += 3) {
            out[i] = w.random_byte;
        }
        out[n - 1] = w.random_byte;
    }
    if (w.recording) {
        std::lock_guard<std::mutex> g(w.mtx);
        w.knowledge.secret(Bytes(reinterpret_cast<char*>(out), n));
    }
}

void Knowledge::clear()
{
    *this = Knowledge();
}
int Knowledge::intern(const Bytes& v)
{
    auto it = ids_.find(v);
    if (it != ids_.end()) {
        return it->second;
    }
    int id = (int)values_.size();
    ids_[v] = id;
    values_.push_back(v);
    known_.push_back(false);
    uses_.emplace_back();
    if (v.size() >= 8) {
        uint64_t p;
        memcpy(&p, v.data(), 8);
        prefix_[p].push_back(id);
    }
    return id;
}
int Knowledge::secret(const Bytes& v)
{
    return intern(v);
}
int Knowledge::find(const Bytes& x) const
{
    auto it = ids_.find(x);
    return it == ids_.end() ? -1 : it->second;
}
int Knowledge::find_prefix(const uint8_t* p, size_t n) const
{
    uint64_t h;
    memcpy(&h, p, 8);
    auto it = prefix_.find(h);
    if (it != prefix_.end()) {
        for (int id : it->second) {
            if (values_[id].size() >= n && memcmp(values_[id].data(), p, n) == 0) {
                return id;
            }
        }
    }
    return -1;
}
// the registered value x, else those inside it
void Knowledge::parts(const Bytes& x, std::vector<int>& out) const
{
    int id = find(x);
    if (id >= 0) {
        out.push_back(id);
        return;
    }
    for (size_t i = 0; i + 8 <= x.size(); i++) {
        uint64_t h;
        memcpy(&h, x.data() + i, 8);
        auto it = prefix_.find(h);
        if (it == prefix_.end()) {
            continue;
        }
        for (int v : it->second) {
            if (x.size() - i >= values_[v].size()
                && x.compare(i, values_[v].size(), values_[v]) == 0) {
                out.push_back(v);
            }
        }
    }
}
void Knowledge::learn(int first)
{
    std::vector<int> todo = {first};
    while (!todo.empty()) {
        int id = todo.back();
        todo.pop_back();
        if (known_[id]) {
            continue;
        }
        known_[id] = true;
        for (int w : uses_[id]) {
            if (--ways_[w].missing == 0) {
                todo.push_back(ways_[w].out);
            }
        }
    }
}
void Knowledge::derivation(const Bytes& out, const std::vector<Bytes>& from)
{
    std::vector<int> f;
    for (const auto& x : from) {
        parts(x, f);
    }
    std::set<int> once(f.begin(), f.end());
    f.assign(once.begin(), once.end());
    int o = intern(out);
    if (!seen_.insert({o, f}).second) {
        return;
    }
    Way w{o, 0, f};
    int n = (int)ways_.size();
    for (int v : f) {
        if (!known_[v]) {
            w.missing++;
            uses_[v].push_back(n);
        }
    }
    ways_.push_back(w);
    if (w.missing == 0) {
        learn(o);
    }
}
void Knowledge::observe(const Bytes& x)
{
    std::vector<int> p;
    parts(x, p);
    for (int v : p) {
        learn(v);
    }
}
bool Knowledge::derivable(const Bytes& x) const
{
    std::vector<int> p;
    parts(x, p);
    for (int v : p) {
        if (!known_[v]) {
            return false;
        }
    }
    return true;
}

} // namespace standin

namespace sse {
namespace crypto {

namespace {
// a four-round Feistel network over the message, keyed by the public key
constexpr size_t kHalf = Tdp::kMessageSize / 2;
void             round_fn(const std::string& pk, int r, const uint8_t* in, uint8_t* out)
{
    // (neither chosen by an oracle nor recorded)
    standin::plain_ideal("feistel", pk + std::to_string(r), standin::bytes(in, kHalf), out, kHalf);
}
} // namespace

Tdp::message_type Tdp::forward(const std::string& pk, const message_type& in)
{
    message_type m = in;
    for (int r = 0; r < 4; r++) {
        uint8_t f[kHalf];
        round_fn(pk, r, m.data() + kHalf, f);
        message_type n;
        memcpy(n.data(), m.data() + kHalf, kHalf);
        for (size_t i = 0; i < kHalf; i++) {
            n[kHalf + i] = m[i] ^ f[i];
        }
        m = n;
    }
    return m;
}
Tdp::message_type Tdp::backward(const std::string& pk, const message_type& in)
{
    message_type m = in;
    for (int r = 3; r >= 0; r--) {
        uint8_t f[kHalf];
        round_fn(pk, r, m.data(), f);
        message_type n;
        memcpy(n.data() + kHalf, m.data(), kHalf);
        for (size_t i = 0; i < kHalf; i++) {
            n[i] = m[kHalf + i] ^ f[i];
        }
        m = n;
    }
    return m;
}
Tdp::message_type Tdp::eval(const message_type& in) const
{
    message_type out = forward(pk_, in);
    standin::record("tdp", standin::bytes(out), {standin::bytes(in)});
    return out;
}
namespace {
// keys are texts of several lines, like the real ones
std::string text(const char* head, const uint8_t* p)
{
    static const char* h = "0123456789ABCDEF";
    std::string        o = std::string(head) + "\n";
    for (size_t i = 0; i < 32; i++) {
        o += h[p[i] >> 4];
        o += h[p[i] & 15];
        if (i % 16 == 15) {
            o += '\n';
        }
    }
    return o;
}
std::string pk_of(const std::string& sk)
{
    uint8_t p[32];
    standin::ideal("tdp-pk", sk, "", p, 32);
    return text("PK:", p);
}
} // namespace
TdpInverse::TdpInverse()
{
    uint8_t s[32];
    standin::random_fill(s, 32);
    sk_ = text("SK:", s);
    standin::record("text", sk_, {standin::bytes(s, 32)});
    pk_ = pk_of(sk_);
}
TdpInverse::TdpInverse(const std::string& sk) : sk_(sk)
{
    if (sk.size() != kPkSize || sk.compare(0, 3, "SK:") != 0) {
        throw std::runtime_error("stand-in: invalid private key");
    }
    pk_ = pk_of(sk);
}
Tdp::message_type TdpInverse::generate_array(const Prf<kRSAPrfSize>& prg,
                                             const std::string&      seed) const
{
    auto         big = prg.prf(seed);
    message_type m;
    memcpy(m.data(), big.data(), m.size());
    standin::record("reduce", standin::bytes(m), {standin::bytes(big)});
    return m;
}
Tdp::message_type TdpInverse::invert_mult(const message_type& in, uint32_t order) const
{
    // goes on from the last result, if it can: a list of n updates is then
    // made in n steps
    struct Last
    {
        std::string  pk;
        message_type in, out;
        uint32_t     order = 0;
    };
#ifdef MC_SCHED
    Last last; // nothing is kept from one execution to the next
#else
    thread_local Last last;
#endif
    message_type      m     = in;
    uint32_t          start = 0;
    if (!standin::world().recording && last.order && last.order <= order && last.pk == pk_ && last.in == in) {
        m     = last.out;
        start = last.order;
    }
    for (uint32_t i = start; i < order; i++) {
        message_type p = backward(pk_, m);
        standin::record("tdp-inv", standin::bytes(p), {sk_, standin::bytes(m)});
        standin::record("tdp", standin::bytes(m), {standin::bytes(p)});
        m = p;
    }
    last = Last{pk_, in, m, order};
    return m;
}
Tdp::message_type TdpMultPool::eval(const message_type& in, const uint8_t order) const
{
    if (order < 1 || order > max_) {
        throw std::invalid_argument("Invalid order for this TDP pool");
    }
    message_type m = in;
    for (uint8_t i = 0; i < order; i++) {
        m = Tdp::eval(m);
    }
    return m;
}

namespace punct {
tag_type extract_tag(const ciphertext_type& ct)
{
    tag_type t;
    memcpy(t.data(), ct.data() + 16, kTagSize);
    return t;
}
tag_type extract_tag(const key_share_type& ks)
{
    tag_type t;
    memcpy(t.data(), ks.data() + 24, kTagSize);
    return t;
}
} // namespace punct

PuncturableEncryption::PuncturableEncryption(Key<punct::kMasterKeySize>&& key)
    : key_(key.raw())
{
    Key<punct::kMasterKeySize> used(std::move(key));
}
punct::ciphertext_type PuncturableEncryption::encrypt(const uint64_t         m,
                                                      const punct::tag_type& tag)
{
    punct::ciphertext_type ct;
    // nonce: here it identifies the key
    standin::ideal("pe-id", key_, "", ct.data(), 16);
    memcpy(ct.data() + 16, tag.data(), punct::kTagSize);
    uint64_t mask;
    standin::ideal("pe-mask",
                   standin::bytes(ct.data(), 16),
                   standin::bytes(tag),
                   reinterpret_cast<uint8_t*>(&mask),
                   8);
    mask ^= m;
    memcpy(ct.data() + 16 + punct::kTagSize, &mask, 8);
    return ct;
}
punct::key_share_type PuncturableEncryption::initial_keyshare(const size_t d)
{
    punct::key_share_type ks{};
    standin::ideal("pe-id", key_, "", ks.data(), 16);
    uint64_t n = d | ((uint64_t)1 << 63);
    memcpy(ks.data() + 16, &n, 8);
    return ks;
}
punct::key_share_type PuncturableEncryption::inc_puncture(const size_t           d,
                                                          const punct::tag_type& tag)
{
    if (d == 0) {
        throw std::invalid_argument("stand-in: punctures are numbered from 1");
    }
    punct::key_share_type ks{};
    standin::ideal("pe-id", key_, "", ks.data(), 16);
    uint64_t n = d;
    memcpy(ks.data() + 16, &n, 8);
    memcpy(ks.data() + 24, tag.data(), punct::kTagSize);
    return ks;
}
bool PuncturableDecryption::is_punctured_on_tag(const punct::tag_type& tag) const
{
    for (size_t i = 1; i < key_.size(); i++) {
        if (punct::extract_tag(key_[i]) == tag) {
            return true;
        }
    }
    return false;
}
bool PuncturableDecryption::decrypt(const punct::ciphertext_type& ct, uint64_t& m) const
{
    if (is_punctured_on_tag(punct::extract_tag(ct))) {
        return false;
    }
    bool good = !key_.empty();
    if (good) {
        uint64_t n;
        memcpy(&n, key_[0].data() + 16, 8);
        good = n == ((key_.size() - 1) | ((uint64_t)1 << 63));
        std::set<uint64_t> seen;
        for (size_t i = 0; i < key_.size(); i++) {
            memcpy(&n, key_[i].data() + 16, 8);
            good = good && memcmp(key_[i].data(), ct.data(), 16) == 0;
            if (i > 0) {
                good = good && n >= 1 && n < key_.size() && seen.insert(n).second;
            }
        }
    }
    uint64_t mask;
    standin::ideal(good ? "pe-mask" : "pe-garbage",
                   standin::bytes(ct.data(), 16),
                   standin::bytes(punct::extract_tag(ct)),
                   reinterpret_cast<uint8_t*>(&mask),
                   8);
    memcpy(&m, ct.data() + 16 + punct::kTagSize, 8);
    m ^= mask;
    return true;
}

} // namespace crypto
} // namespace sse

int crypto_stream_chacha20(unsigned char*       c,
                           unsigned long long   clen,
                           const unsigned char* n,
                           const unsigned char* k)
{
    if (clen > 0) {
        standin::ideal("stream",
                       standin::bytes(k, crypto_stream_chacha20_KEYBYTES),
                       standin::bytes(n, crypto_stream_chacha20_NONCEBYTES),
                       c,
                       clen);
    }
    return 0;
}
int crypto_stream_chacha20_xor(unsigned char*       c,
                               const unsigned char* m,
                               unsigned long long   mlen,
                               const unsigned char* n,
                               const unsigned char* k)
{
    std::vector<unsigned char> s(mlen);
    crypto_stream_chacha20(s.data(), mlen, n, k);
    for (unsigned long long i = 0; i < mlen; i++) {
        c[i] = m[i] ^ s[i];
    }
    return 0;
}
void sodium_memzero(void* const pnt, const size_t len)
{
    memset(pnt, 0, len);
}
