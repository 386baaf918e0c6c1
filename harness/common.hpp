// Shared runtime for all property harnesses: deterministic PRNG, event counters, violation reporting,
// deterministic + recorded CSPRNG, instrumented crypto engine (trace + fault injection), object helpers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cinttypes>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <memory>
#include <functional>
#include <algorithm>
#include <mutex>

#include "wickr_ctx.h"
#include "protocol.h"
#include "stream_ctx.h"
#include "transport_ctx.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "transport_root_key.h"
#include "fingerprint.h"
#include "b32.h"
#include "util.h"
#include "openssl_suite.h"
#include "openssl_file_suite.h"
#include "crypto_engine.h"
#include "devinfo.h"
#include "root_keys.h"
#include "memory.h"
#include "ecdh_cipher_ctx.h"

extern "C" int shim_kdf_fast;
extern "C" int shim_kdf_fail;
extern "C" unsigned long shim_kdf_failed;

namespace v {

typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto &x : s) x = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t u64() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    Bytes bytes(size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)u64(); return b; }
    template <class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

// sizes biased to block / buffer boundaries
inline size_t gen_size(Rng &r, size_t max, size_t min = 1)
{
    static const size_t base[] = { 1, 2, 12, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 143, 144, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072 };
    for (int i = 0; i < 50; i++) {
        size_t n;
        switch (r.below(4)) {
            case 0: n = base[r.below(sizeof base / sizeof *base)]; break;
            case 1: n = r.range(1, 80); break;
            case 2: n = r.range(1, 600); break;
            default: n = base[r.below(26)]; break;
        }
        if (n >= min && n <= max) return n;
    }
    return r.range(min, max);
}
// byte strings of various shapes
inline Bytes gen_bytes(Rng &r, size_t max, size_t min = 1)
{
    size_t n = gen_size(r, max, min);
    switch (r.below(8)) {
        case 0: return Bytes(n, 0);
        case 1: return Bytes(n, 0xff);
        case 2: { Bytes b = r.bytes(n); for (auto &x : b) if (r.chance(1, 2)) x = 0; return b; }
        case 3: { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)i; return b; }
        default: return r.bytes(n);
    }
}
inline uint64_t gen_u64(Rng &r)
{
    static const uint64_t b[] = { 0, 1, 2, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull };
    if (r.chance(1, 2)) return b[r.below(sizeof b / sizeof *b)];
    return r.u64() >> r.below(64);
}

inline std::string hex(const uint8_t *p, size_t n, size_t max = 48)
{
    std::string s;
    char t[3];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 3, "%02x", p[i]); s += t; }
    if (n > max) s += "..(" + std::to_string(n) + ")";
    return s;
}
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { auto *c = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

// ------------------------------------------------------------------ reporting
struct CaseAbort {};
extern bool g_thorough;
extern uint64_t g_seed, g_case;
void viol(const std::string &key, const std::string &detail);   // record a violation of the property under check
uint64_t viol_count();
void ev(const char *name, uint64_t n = 1);                        // count an observed event
void distinct(uint64_t h);                                        // register a distinct non-trivial situation
void distinct_named(const std::string &s, uint64_t h);
inline void distinct(const std::string &s) { distinct_named(s, fnv(s)); }
void sample(const std::string &s);
void evals(uint64_t n);                                           // oracle evaluations

#define EXPECT(cond, key, ...) do { v::evals(1); if (!(cond)) v::viol(key, v::fmt(__VA_ARGS__)); } while (0)
#define REQUIRE(cond, key, ...) do { v::evals(1); if (!(cond)) { v::viol(key, v::fmt(__VA_ARGS__)); throw v::CaseAbort(); } } while (0)

// every harness defines these
extern const char *PROP_ID;
void prop_init();
void prop_case(uint64_t k, Rng &r);
void prop_fini();

// ------------------------------------------------------------------ object handles
template <class T> struct Del;
template <> struct Del<wickr_buffer_t> { void operator()(wickr_buffer_t *p) const; };
#define VDEL(T, D) template <> struct Del<T> { void operator()(T *p) const { D(&p); } };
VDEL(wickr_cipher_result_t, wickr_cipher_result_destroy)
VDEL(wickr_cipher_key_t, wickr_cipher_key_destroy)
VDEL(wickr_dev_info_t, wickr_dev_info_destroy)
VDEL(wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy)
VDEL(wickr_ecdsa_result_t, wickr_ecdsa_result_destroy)
VDEL(wickr_ec_key_t, wickr_ec_key_destroy)
VDEL(wickr_encoder_result_t, wickr_encoder_result_destroy)
VDEL(wickr_ephemeral_keypair_t, wickr_ephemeral_keypair_destroy)
VDEL(wickr_fingerprint_t, wickr_fingerprint_destroy)
VDEL(wickr_identity_t, wickr_identity_destroy)
VDEL(wickr_identity_chain_t, wickr_identity_chain_destroy)
VDEL(wickr_kdf_meta_t, wickr_kdf_meta_destroy)
VDEL(wickr_kdf_result_t, wickr_kdf_result_destroy)
VDEL(wickr_key_exchange_t, wickr_key_exchange_destroy)
VDEL(wickr_key_exchange_set_t, wickr_key_exchange_set_destroy)
VDEL(wickr_node_t, wickr_node_destroy)
VDEL(wickr_packet_meta_t, wickr_packet_meta_destroy)
VDEL(wickr_payload_t, wickr_payload_destroy)
VDEL(wickr_packet_t, wickr_packet_destroy)
VDEL(wickr_parse_result_t, wickr_parse_result_destroy)
VDEL(wickr_decode_result_t, wickr_decode_result_destroy)
VDEL(wickr_root_keys_t, wickr_root_keys_destroy)
VDEL(wickr_storage_keys_t, wickr_storage_keys_destroy)
VDEL(wickr_stream_ctx_t, wickr_stream_ctx_destroy)
VDEL(wickr_stream_iv_t, wickr_stream_iv_destroy)
VDEL(wickr_stream_key_t, wickr_stream_key_destroy)
VDEL(wickr_transport_ctx_t, wickr_transport_ctx_destroy)
VDEL(wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy)
VDEL(wickr_transport_handshake_t, wickr_transport_handshake_destroy)
VDEL(wickr_transport_packet_t, wickr_transport_packet_destroy)
VDEL(wickr_transport_root_key_t, wickr_transport_root_key_destroy)
VDEL(wickr_ctx_t, wickr_ctx_destroy)
VDEL(wickr_ctx_gen_result_t, wickr_ctx_gen_result_destroy)
VDEL(wickr_ctx_packet_t, wickr_ctx_packet_destroy)
#undef VDEL
template <class T> using H = std::unique_ptr<T, Del<T>>;
template <class T> inline H<T> own(T *p) { return H<T>(p); }
struct NodeArrDel { void operator()(wickr_node_array_t *p) const { wickr_array_destroy(&p, true); } };
typedef std::unique_ptr<wickr_node_array_t, NodeArrDel> NodeArr;
struct ExArrDel { void operator()(wickr_array_t *p) const { wickr_exchange_array_destroy(&p); } };
typedef std::unique_ptr<wickr_array_t, ExArrDel> ExArr;

// ------------------------------------------------------------------ buffers
inline Bytes B(const wickr_buffer_t *b) { return b && b->bytes ? Bytes(b->bytes, b->bytes + b->length) : Bytes(); }
inline Bytes B(const H<wickr_buffer_t> &b) { return B(b.get()); }
inline Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline wickr_buffer_t *mkp(const Bytes &b) { wickr_buffer_t *p = wickr_buffer_create(b.data(), b.size()); if (!p) { fprintf(stderr, "harness: cannot make buffer of %zu\n", b.size()); } return p; }
inline H<wickr_buffer_t> mk(const Bytes &b) { return own(mkp(b)); }
inline H<wickr_buffer_t> mk(const std::string &s) { return mk(B(s)); }
// a non-owning buffer over exactly-sized heap bytes (ASan sees any overread)
struct View {
    uint8_t *p;
    wickr_buffer_t b;
    explicit View(const Bytes &x) : p((uint8_t *)malloc(x.size() ? x.size() : 1)) { if (x.size()) memcpy(p, x.data(), x.size()); b.bytes = p; b.length = x.size(); }
    ~View();
    View(const View &) = delete;
    View &operator=(const View &) = delete;
    operator const wickr_buffer_t *() const { return &b; }
    wickr_buffer_t *operator&() { return &b; }
};
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes o; for (auto &x : l) o.insert(o.end(), x.begin(), x.end()); return o; }
inline Bytes sub(const Bytes &b, size_t off, size_t n = (size_t)-1) { if (off >= b.size()) return Bytes(); n = std::min(n, b.size() - off); return Bytes(b.begin() + off, b.begin() + off + n); }
inline bool contains(const Bytes &hay, const Bytes &needle) { return !needle.empty() && std::search(hay.begin(), hay.end(), needle.begin(), needle.end()) != hay.end(); }
inline bool eq(const wickr_buffer_t *a, const Bytes &b) { return a && a->length == b.size() && (b.empty() || !memcmp(a->bytes, b.data(), b.size())); }
// NULL equals NULL
inline bool same(const wickr_buffer_t *a, const wickr_buffer_t *b) { if (!a || !b) return a == b; return a->length == b->length && (a->length == 0 || !memcmp(a->bytes, b->bytes, a->length)); }
bool same(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b);
bool same(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b);
bool same(const wickr_ec_key_t *a, const wickr_ec_key_t *b);
bool same_pub(const wickr_ec_key_t *a, const wickr_ec_key_t *b);
bool same(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b);
bool same(const wickr_identity_t *a, const wickr_identity_t *b);
bool same_pub(const wickr_identity_t *a, const wickr_identity_t *b);
bool same(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b);
bool same_pub(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b);
bool same(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b);
bool same_pub(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b);
bool same(const wickr_node_t *a, const wickr_node_t *b);
bool same_pub(const wickr_node_t *a, const wickr_node_t *b);
bool same(const wickr_storage_keys_t *a, const wickr_storage_keys_t *b);
bool same(const wickr_root_keys_t *a, const wickr_root_keys_t *b);
bool same(const wickr_dev_info_t *a, const wickr_dev_info_t *b);
bool same(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b);
bool same(const wickr_payload_t *a, const wickr_payload_t *b);
bool same(const wickr_packet_t *a, const wickr_packet_t *b);
bool same(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b);
bool same(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b);
bool same(const wickr_stream_key_t *a, const wickr_stream_key_t *b);
bool same(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b);
bool same(const wickr_ctx_t *a, const wickr_ctx_t *b);
bool same(const wickr_fingerprint_t *a, const wickr_fingerprint_t *b);
inline bool cipher_eq(wickr_cipher_t a, wickr_cipher_t b) { return a.cipher_id == b.cipher_id && a.key_len == b.key_len && a.iv_len == b.iv_len && a.auth_tag_len == b.auth_tag_len && a.is_authenticated == b.is_authenticated; }

// snapshot of everything reachable, used to check that inputs are left alone
std::string snap(const wickr_buffer_t *b);
std::string snap(const wickr_cipher_key_t *k);
std::string snap(const wickr_ec_key_t *k);
std::string snap(const wickr_identity_chain_t *c);
std::string snap(const wickr_node_t *n);
std::string snap(const wickr_ctx_t *c);
std::string snap(const wickr_payload_t *p);

// ------------------------------------------------------------------ deterministic random source
struct RandDraw { size_t off, len; };
struct RandState {
    bool active = false;         // deterministic for this thread
    Rng rng;
    uint64_t calls = 0, bytes = 0;
    int64_t fail_after = -1;     // number of successful calls before failures start; -1: never
    bool record = false;
    std::vector<Bytes> draws;
};
RandState &rand_state();                 // thread local
void rand_install();                     // install the hook (process wide, once)
void rand_seed(uint64_t seed);           // make this thread deterministic

// depth > 0 while harness (not library) code runs inside a monitored scope
extern thread_local int g_harness_depth;
struct InHarness { InHarness() { g_harness_depth++; } ~InHarness() { g_harness_depth--; } };
inline View::~View() { InHarness ih; free(p); }
// (a plain buffer is the caller's to dispose of)
inline void Del<wickr_buffer_t>::operator()(wickr_buffer_t *p) const { InHarness ih; wickr_buffer_destroy(&p); }

// ------------------------------------------------------------------ instrumented engine
enum Op { OP_RANDOM, OP_KEYRAND, OP_ENC, OP_DEC, OP_ENCF, OP_DECF, OP_ENCOF, OP_DECOF, OP_DIGEST, OP_DIGESTF, OP_ECRAND, OP_ECIMPORT, OP_SIGN, OP_VERIFY, OP_TORAW, OP_FROMRAW, OP_ECDH, OP_HMAC, OP_HMACV, OP_KDFGEN, OP_KDFMETA, OP_COUNT };
extern const char *const op_name[OP_COUNT];
struct CallRec {
    Op op;
    Bytes key, iv, aad, in, out;   // meaning depends on op; out empty on failure
    bool ok;
    int alg;
};
struct Mon {
    bool record = false;
    std::vector<CallRec> calls;
    uint64_t count = 0;             // number of engine calls so far
    uint64_t per_op[OP_COUNT] = { 0 };
    int64_t fail_at = -1;           // index (in count) of the call to fail; -1 none
    bool fail_persistent = false;   // all calls from fail_at on fail
    uint64_t failed = 0;
    Op fail_op = OP_COUNT;          // the operation that failed last
    uint64_t budget = 0;            // if non-zero: number of calls after which over_budget is set and calls fail
    bool over_budget = false;
    std::function<void(const CallRec &)> on_call;
    void reset() { calls.clear(); count = 0; memset(per_op, 0, sizeof per_op); fail_at = -1; fail_persistent = false; failed = 0; fail_op = OP_COUNT; budget = 0; over_budget = false; }
};
Mon &mon();                                  // thread local
wickr_crypto_engine_t mon_engine();          // instrumented engine
wickr_crypto_engine_t plain_engine();        // the library's default engine

// ------------------------------------------------------------------ actors: accounts and devices
struct Device {
    H<wickr_ctx_gen_result_t> gen;
    wickr_ctx_t *ctx() const { return gen->ctx; }
    Bytes root_id, node_id, dev_id, system_id;
    wickr_identity_chain_t *chain() const { return gen->ctx->id_chain; }
};
// all return through REQUIRE: failing to make an account is itself a violation
Device make_device(Rng &r, wickr_crypto_engine_t e, const Bytes *identifier = nullptr);
// a second device of the same account
Device add_device(Rng &r, wickr_crypto_engine_t e, const Device &first);
H<wickr_ephemeral_keypair_t> gen_eph(const Device &d, uint64_t id);
// the public node other devices see for this device and ephemeral key (through its serialized form)
H<wickr_node_t> public_node(const Device &d, const wickr_ephemeral_keypair_t *eph, wickr_crypto_engine_t e);
H<wickr_identity_chain_t> public_chain(const Device &d, wickr_crypto_engine_t e);
NodeArr node_array(const std::vector<wickr_node_t *> &nodes_taken);   // takes ownership
H<wickr_payload_t> make_payload(const Bytes &body, uint64_t ttl, uint64_t bor, const Bytes *tag, uint16_t type);
struct PayloadSpec { Bytes body; uint64_t ttl, bor; bool has_tag; Bytes tag; uint16_t type; };
PayloadSpec gen_payload(Rng &r, size_t max_body = 70000);
H<wickr_payload_t> make_payload(const PayloadSpec &s);
bool payload_matches(const wickr_payload_t *p, const PayloadSpec &s, std::string *why = nullptr);
inline std::string spec_str(const PayloadSpec &s) { return fmt("body=%zu ttl=%" PRIu64 " bor=%" PRIu64 " tag=%d type=%u", s.body.size(), s.ttl, s.bor, s.has_tag ? (int)s.tag.size() : -1, s.type); }

// generic structural byte mutation (deterministic); always returns something different from the input
Bytes mutate(Rng &r, const Bytes &in, std::string *what = nullptr);

// private scalar bytes inside a DER private key (66 bytes), used as taint needle
Bytes scalar_of(const wickr_ec_key_t *k);

// sanitizer helpers
bool leak_check();      // true if a leak was found (ASan builds)

} // namespace v
