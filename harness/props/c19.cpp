// C19: hashes, MACs and key derivations equal their standards.
#include "scen.hpp"
#include <crypt.h>
#include <openssl/evp.h>
extern "C" {
#include "libscrypt.h"
char *shim_crypt_rn(const char *key, const char *setting, void *data, int size);
}
namespace v {
const char *PROP_ID = "C19";
static wickr_crypto_engine_t E;
void prop_init() { E = plain_engine(); }
void prop_fini() {}
struct Dg { wickr_digest_t d; int bits; };
static const Dg DG[3] = { { DIGEST_SHA_256, 256 }, { DIGEST_SHA_384, 384 }, { DIGEST_SHA_512, 512 } };
static Bytes gb(Rng &r, size_t max) { return r.chance(1, 25) ? Bytes() : gen_bytes(r, max); }

static void digests(Rng &r)
{
    const Dg d = r.pick({ DG[0], DG[1], DG[2] });
    bool salted = r.chance(1, 2);
    Bytes m = gb(r, r.chance(1, 10) ? 200000 : 3000), s = gb(r, 500);
    View M(m), S(s);
    auto h = own(E.wickr_crypto_engine_digest(M, salted ? (const wickr_buffer_t *)S : NULL, d.d));
    EXPECT(h && eq(h.get(), ref::sha(d.bits, salted ? cat({ m, s }) : m)), "wrong-digest", "SHA-%d of %zu bytes%s is not the standard value", d.bits, m.size(), salted ? fmt(" salted with %zu", s.size()).c_str() : "");
    EXPECT(eq(M, m) && eq(S, s), "input-changed", "a digest changed its input");
    distinct(fmt("sha%d %zu %zd", d.bits, m.size(), salted ? (ssize_t)s.size() : -1));
    ev("digests");
    EXPECT(!own(E.wickr_crypto_engine_digest(NULL, S, d.d)), "accepted", "a digest of nothing");
    // from a file
    if (!m.empty()) {
        FILE *f = fmemopen((void *)m.data(), m.size(), "rb");
        size_t skip = r.chance(1, 4) ? r.below(m.size()) : 0;
        if (skip) fseek(f, (long)skip, SEEK_SET);
        auto hf = own(openssl_sha2_file(f, d.d));
        fclose(f);
        EXPECT(hf && eq(hf.get(), ref::sha(d.bits, sub(m, skip))), "wrong-file-digest", "SHA-%d of a file of %zu bytes is not the standard value", d.bits, m.size() - skip);
        ev("file_digests");
    }
}
// a stream of n bytes that arrives in pieces, or fails after a while
struct Src { const Bytes *b; size_t at, fail; Rng *r; };
static ssize_t src_read(void *c, char *buf, size_t n)
{
    Src *s = (Src *)c;
    if (s->at >= s->fail) { errno = EIO; return -1; }
    size_t k = std::min(n, std::min(s->b->size(), s->fail) - s->at);
    if (k > 1 && s->r->chance(1, 2)) k = s->r->range(1, k);
    memcpy(buf, s->b->data() + s->at, k);
    s->at += k;
    return (ssize_t)k;
}
static void streamed(Rng &r)
{
    const Dg d = r.pick({ DG[0], DG[1], DG[2] });
    Bytes m = gen_bytes(r, 40000);
    bool fail = r.chance(1, 2);
    Src s = { &m, 0, fail ? r.below(m.size() + 1) : (size_t)-1, &r };
    cookie_io_functions_t io = { src_read, NULL, NULL, NULL };
    FILE *f = fopencookie(&s, "rb", io);
    auto h = own(openssl_sha2_file(f, d.d));
    fclose(f);
    if (fail) EXPECT(!h, "unread-digested", "a digest was returned for a file that can only be read up to byte %zu of %zu", s.fail, m.size());
    else EXPECT(h && eq(h.get(), ref::sha(d.bits, m)), "wrong-file-digest", "SHA-%d of a file arriving in pieces is not the standard value", d.bits);
    ev(fail ? "failing_files" : "file_digests");
}
static void macs(Rng &r)
{
    const Dg d = r.pick({ DG[0], DG[1], DG[2] });
    Bytes k = r.chance(1, 3) ? r.bytes(r.pick<size_t>({ 1, 31, 32, 63, 64, 65, 127, 128, 129, 200 })) : gb(r, 400), m = gb(r, 3000);
    View K(k), M(m);
    auto h = own(E.wickr_crypto_engine_hmac_create(M, K, d.d));
    Bytes want = ref::hmac(d.bits, k, m);
    EXPECT(h && eq(h.get(), want), "wrong-mac", "HMAC-SHA-%d with a key of %zu and data of %zu bytes is not the standard value", d.bits, k.size(), m.size());
    distinct(fmt("hmac%d %zu %zu", d.bits, k.size(), m.size()));
    ev("macs");
    View W_(want);
    EXPECT(E.wickr_crypto_engine_hmac_verify(M, K, d.d, W_), "mac-refused", "the correct MAC is refused");
    auto no = [&](const Bytes &x, const char *what) { View X(x); ev("wrong_macs"); EXPECT(!E.wickr_crypto_engine_hmac_verify(M, K, d.d, X), std::string("mac-accepted:") + what, "%s is accepted as the MAC", what); };
    for (size_t i = 0; i < want.size() * 8; i++) { Bytes x = want; x[i / 8] ^= 1 << (i % 8); no(x, "a value with one changed bit"); }
    for (size_t n : { (size_t)0, (size_t)1, want.size() / 2, want.size() - 1 }) no(sub(want, 0, n), "a prefix of the value");
    Bytes l = want; l.push_back((uint8_t)r.u64()); no(l, "a longer value");
    no(r.bytes(want.size()), "another value");
    no(Bytes(want.size(), 0), "zeros");
    for (auto &o : DG) if (o.bits != d.bits) no(ref::hmac(o.bits, k, m), "the MAC of another digest");
    if (!m.empty()) { Bytes m2 = mutate(r, m); if (m2 != m) { View M2(m2); ev("wrong_macs"); EXPECT(!E.wickr_crypto_engine_hmac_verify(M2, K, d.d, W_), "mac-accepted:other-data", "the MAC of other data is accepted"); } }
    { Bytes k2 = k; k2.push_back(1); View K2(k2); ev("wrong_macs"); EXPECT(!E.wickr_crypto_engine_hmac_verify(M, K2, d.d, W_), "mac-accepted:other-key", "the MAC under another key is accepted"); }
    EXPECT(!E.wickr_crypto_engine_hmac_verify(M, K, d.d, NULL), "mac-accepted:none", "no MAC is accepted");
    EXPECT(!E.wickr_crypto_engine_hmac_verify(NULL, K, d.d, W_) && !E.wickr_crypto_engine_hmac_verify(M, NULL, d.d, W_), "mac-accepted:none", "a MAC over nothing is accepted");
}
static void hkdfs(Rng &r)
{
    const Dg d = r.pick({ DG[0], DG[1], DG[2] });
    size_t hl = (size_t)d.bits / 8;
    Bytes ikm = gen_bytes(r, 600), salt = gen_bytes(r, 300), info = gen_bytes(r, 1024);
    bool hs = r.chance(2, 3), hi = r.chance(2, 3);
    View K(ikm), S(salt), I(info);
    const wickr_buffer_t *ps = hs ? (const wickr_buffer_t *)S : NULL, *pi = hi ? (const wickr_buffer_t *)I : NULL;
    size_t len = r.chance(1, 2) ? hl : r.chance(1, 2) ? r.range(1, 255) : r.pick<size_t>({ 1, hl - 1, hl, hl + 1, 2 * hl, 2 * hl + 1, 255 * hl });
    wickr_digest_t dd = d.d;
    dd.size = (uint8_t)(len > 255 ? hl : len);
    auto a = own(openssl_hkdf(K, ps, pi, dd));
    EXPECT(a && eq(a.get(), ref::hkdf(d.bits, ikm, hs ? salt : Bytes(), hi ? info : Bytes(), dd.size)), "wrong-hkdf", "HKDF-SHA-%d (key %zu, salt %zd, info %zd, out %u) is not the standard value", d.bits, ikm.size(), hs ? (ssize_t)salt.size() : -1, hi ? (ssize_t)info.size() : -1, dd.size);
    auto x = own(openssl_hkdf_expand(K, pi, d.d, len));
    EXPECT(x && eq(x.get(), ref::hkdf_expand(d.bits, ikm, hi ? info : Bytes(), len)), "wrong-expand", "HKDF-Expand SHA-%d (key %zu, info %zd, out %zu) is not the standard value", d.bits, ikm.size(), hi ? (ssize_t)info.size() : -1, len);
    auto over = own(openssl_hkdf_expand(K, pi, d.d, 255 * hl + r.range(1, 1000)));
    EXPECT(!over, "accepted:too-long", "HKDF gave more output than it can");
    { View I2(r.bytes(r.range(1025, 5000))); auto y = own(openssl_hkdf(K, ps, I2, d.d)); EXPECT(!y || eq(y.get(), ref::hkdf(d.bits, ikm, hs ? salt : Bytes(), B(&I2), hl)), "wrong-hkdf", "HKDF with long info is not the standard value"); }
    ev("hkdfs");
    distinct(fmt("hkdf%d %zu %d %d", d.bits, len, hs, hi));
    // through derivation settings
    const wickr_kdf_algo_t *alg = wickr_hkdf_algo_for_digest(d.d);
    REQUIRE(alg, "no-algorithm", "no HKDF for SHA-%d", d.bits);
    EXPECT(alg->output_size == hl && alg->salt_size == hl, "wrong-algorithm", "HKDF settings for SHA-%d have output %u, salt %u", d.bits, alg->output_size, alg->salt_size);
    if (hs || hi) {
        auto m = own(wickr_kdf_meta_create(*alg, hs ? mkp(salt) : NULL, hi ? mkp(info) : NULL));
        REQUIRE(m, "settings-refused", "HKDF settings are refused");
        auto q = own(E.wickr_crypto_kdf_meta(m.get(), K));
        EXPECT(q && eq(q->hash, ref::hkdf(d.bits, ikm, hs ? salt : Bytes(), hi ? info : Bytes(), hl)) && same(q->meta, m.get()), "wrong-hkdf", "deriving from HKDF settings is not the standard value");
        auto mc = own(wickr_kdf_meta_copy(m.get()));
        auto q2 = mc ? own(E.wickr_crypto_kdf_meta(mc.get(), K)) : nullptr;
        EXPECT(q2 && same(q2->hash, q->hash), "not-reproduced", "deriving again from a copy of the settings gives another key");
    }
    { wickr_buffer_t *ib = mkp(info);
      size_t n = r.chance(1, 2) ? r.range(1, 255) : r.pick<size_t>({ 1, 64, 128, 255, 256, 257, 300, 512, 1000, 65536, 16320 });
      auto m = own(wickr_kdf_meta_create_hkdf_expand(&d.d, ib, n));
      if (!m) wickr_buffer_destroy(&ib);
      if (d.bits == 512 && n <= 255) EXPECT(m, "settings-refused", "expand-only settings of %zu bytes are refused", n);
      if (m) {
          auto q = own(E.wickr_crypto_kdf_meta(m.get(), K));
          if (n <= 255) EXPECT(q, "derivation-failed", "expand-only derivation of %zu bytes failed", n);
          if (q) EXPECT(eq(q->hash, ref::hkdf_expand(512, ikm, info, n)), "wrong-expand", "expand-only settings for %zu bytes give %zu bytes that are not the standard value", n, q->hash->length);
          ev("expands");
      } }
    { auto q = own(E.wickr_crypto_kdf_gen(*alg, K));
      EXPECT(q && eq(q->hash, ref::hkdf(d.bits, ikm, B(q->meta->salt), Bytes(), hl)) && q->meta->salt->length == hl, "wrong-hkdf", "HKDF with a generated salt is not the standard value"); }
}
static const wickr_kdf_algo_t SC[4] = { KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20 };
static Bytes ref_scrypt(const Bytes &pw, const Bytes &salt, int n)
{
    Bytes o(32);
    if (shim_kdf_fast) libscrypt_scrypt(pw.data(), pw.size(), salt.data(), salt.size(), 1ull << n, 8, 1, o.data(), 32);
    else EVP_PBE_scrypt((const char *)pw.data(), pw.size(), salt.data(), salt.size(), 1ull << n, 8, 1, 4ull << 30, o.data(), 32);
    return o;
}
static Bytes ref_bcrypt(const Bytes &pw, const Bytes &salt)
{
    std::string p((const char *)pw.data(), pw.size()), s = "$2y$15$" + std::string((const char *)salt.data(), salt.size());
    if (shim_kdf_fast) { char o[64]; return shim_crypt_rn(p.c_str(), s.c_str(), o, sizeof o) ? v::B(std::string(o)) : Bytes(); }
    static struct crypt_data cd;
    memset(&cd, 0, sizeof cd);
    char *o = crypt_r(p.c_str(), s.c_str(), &cd);
    return o && o[0] != '*' ? v::B(std::string(o)) : Bytes();
}
static void passphrase(Rng &r, int which, bool real)
{
    shim_kdf_fast = !real;
    Bytes pw = gen_bytes(r, which < 4 && r.chance(1, 12) ? 20000 : 200);
    if (r.chance(1, 2)) for (auto &c : pw) if (!c) c = 'x';
    View P(pw);
    bool bc = which == 4;
    const wickr_kdf_algo_t &alg = bc ? KDF_BCRYPT_15 : SC[which];
    auto want = [&](const Bytes &salt) { return bc ? ref_bcrypt(pw, salt) : ref_scrypt(pw, salt, 17 + which); };
    auto g = own(E.wickr_crypto_kdf_gen(alg, P));
    std::string nm = bc ? "bcrypt" : fmt("scrypt-2^%d", 17 + which);
    if (!g) { shim_kdf_fast = 1; REQUIRE(false, "derivation-failed", "%s of %zu bytes failed", nm.c_str(), pw.size()); }
    EXPECT(g->meta && g->meta->salt && g->meta->salt->length == (bc ? 22u : 16u) && g->meta->algo.kdf_id == (bc ? KDF_ID_BCRYPT_15 : KDF_ID_SCRYPT_17 + which), "wrong-settings", "%s reports other settings than it was asked for", nm.c_str());
    EXPECT(eq(g->hash, want(B(g->meta->salt))), "wrong-kdf", "%s of %zu bytes is not the standard value", nm.c_str(), pw.size());
    EXPECT(eq(P, pw), "input-changed", "%s changed the passphrase", nm.c_str());
    ev(bc ? "bcrypts" : "scrypts");
    if (real) ev("real_kdfs");
    distinct(fmt("%s %zu %d", nm.c_str(), pw.size(), real));
    // stored parameters
    auto s = own(wickr_kdf_meta_serialize(g->meta));
    REQUIRE(s && eq(s.get(), cat({ Bytes{ (uint8_t)(bc ? 5 : 1 + which) }, B(g->meta->salt) })), "wrong-settings", "%s settings are not stored as documented", nm.c_str());
    EXPECT(wickr_kdf_meta_size_with_buffer(s.get()) == s->length, "wrong-settings", "the size of stored settings is misreported");
    Bytes tail = cat({ B(s), r.bytes(r.below(40)) });
    View T(tail);
    EXPECT(wickr_kdf_meta_size_with_buffer(T) == s->length, "wrong-settings", "the size of stored settings is misreported when more data follows");
    auto m = own(wickr_kdf_meta_create_with_buffer(T));
    REQUIRE(m && same(m.get(), g->meta), "not-restored", "stored %s settings are not restored", nm.c_str());
    auto again = own(E.wickr_crypto_kdf_meta(m.get(), P));
    EXPECT(again && same(again->hash, g->hash), "not-reproduced", "deriving again from stored %s settings gives another key", nm.c_str());
    auto rc = own(wickr_kdf_result_copy(g.get()));
    EXPECT(rc && same(rc->hash, g->hash) && same(rc->meta, g->meta), "copy-differs", "a copy of a derivation differs");
    ev("reproduced");
    if (!real) {
        auto g2 = own(E.wickr_crypto_kdf_gen(alg, P));
        EXPECT(g2 && !same(g2->meta->salt, g->meta->salt) && !same(g2->hash, g->hash), "salt-reused", "two derivations share a salt");
        // a chosen salt
        Bytes salt = bc ? Bytes(22) : r.bytes(16);
        if (bc) for (auto &c : salt) c = (uint8_t) "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.below(64)];
        auto m2 = own(wickr_kdf_meta_create(alg, mkp(salt), NULL));
        REQUIRE(m2, "settings-refused", "%s settings are refused", nm.c_str());
        auto k2 = own(E.wickr_crypto_kdf_meta(m2.get(), P));
        EXPECT(k2 && eq(k2->hash, want(salt)), "wrong-kdf", "%s with a chosen salt is not the standard value", nm.c_str());
        for (size_t n : { (size_t)1, salt.size() - 1, salt.size() + 1 }) { wickr_buffer_t *b = mkp(r.bytes(n)); auto q = own(wickr_kdf_meta_create(alg, b, NULL)); EXPECT(!q, "accepted:salt-size", "%s accepts a salt of %zu bytes", nm.c_str(), n); if (!q) wickr_buffer_destroy(&b); }
    }
    shim_kdf_fast = 1;
}
// inputs past what three bytes of length can express
static void large(Rng &r)
{
    Bytes m = r.bytes((16u << 20) + r.range(1, 100000)), key = r.bytes(64);
    View M(m), K(key);
    for (const Dg &g : DG) {
        wickr_digest_t d = g.d;
        int bits = g.bits;
        auto h = own(E.wickr_crypto_engine_digest(M, NULL, d));
        EXPECT(h && eq(h.get(), ref::sha(bits, m)), "wrong-digest", "SHA-%d of %zu bytes is not the standard value", bits, m.size());
        auto mac = own(E.wickr_crypto_engine_hmac_create(M, K, d));
        EXPECT(mac && eq(mac.get(), ref::hmac(bits, key, m)), "wrong-mac", "HMAC-SHA-%d of %zu bytes is not the standard value", bits, m.size());
        FILE *f = tmpfile();
        if (f && fwrite(m.data(), 1, m.size(), f) == m.size()) { rewind(f); auto q = own(E.wickr_crypto_engine_digest_file(f, d)); EXPECT(q && eq(q.get(), ref::sha(bits, m)), "wrong-file-digest", "SHA-%d of a file of %zu bytes is not the standard value", bits, m.size()); }
        if (f) fclose(f);
    }
    ev("large_inputs");
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    // the real functions, once per run for each cost
    if (k < 4) passphrase(r, (int)k, true);
    if (k == 4 || (g_thorough && k % 500 == 4)) passphrase(r, 4, true);
    if (g_thorough && k % 100 == 5) passphrase(r, 0, true);
    if (k == 6) large(r);
    for (int i = 0; i < 6; i++) { digests(r); streamed(r); macs(r); hkdfs(r); passphrase(r, (int)r.below(5), false); }
}
} // namespace v
