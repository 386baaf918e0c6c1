// C17: ciphers give the standard result, round trip, and authenticated decryption rejects any change.
#include "scen.hpp"
#include <sys/mman.h>
namespace v {
const char *PROP_ID = "C17";
static wickr_crypto_engine_t E;
typedef H<wickr_cipher_result_t> CR;
typedef H<wickr_cipher_key_t> CK;

void prop_init() { E = plain_engine(); }
void prop_fini() {}

static CK mkkey(wickr_cipher_t c, const Bytes &k) { wickr_buffer_t *b = mkp(k); auto r = own(wickr_cipher_key_create(c, b)); if (!r) wickr_buffer_destroy(&b); return r; }
static void refused(const CR &x, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, bool only_auth, const char *what, const std::string &ctx)
{
    auto p = own(E.wickr_crypto_engine_cipher_decrypt(x.get(), aad, k, only_auth));
    ev("changes_tried");
    EXPECT(!p, std::string("accepted:") + what, "decryption accepted %s (%s)", what, ctx.c_str());
}
static void flip(Rng &r, wickr_buffer_t *b, size_t bit) { b->bytes[bit / 8] ^= (uint8_t)(1 << (bit % 8)); (void)r; }
template <class F> static void each_bit(Rng &r, wickr_buffer_t *b, size_t limit, F f)
{
    size_t n = b->length * 8;
    if (n <= limit) { for (size_t i = 0; i < n; i++) { flip(r, b, i); f(i); flip(r, b, i); } return; }
    for (size_t j = 0; j < limit; j++) {
        size_t i = j == 0 ? 0 : j == 1 ? n - 1 : j < 8 ? n - 1 - r.below(std::min<size_t>(n, 128)) : r.below(n);
        flip(r, b, i);
        f(i);
        flip(r, b, i);
    }
}

static void one(Rng &r, size_t max)
{
    bool gcm = r.chance(3, 4);
    wickr_cipher_t C = gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
    Bytes key = gen_bytes(r, 32, 32);
    key.resize(32);
    Bytes pt = gen_bytes(r, max);
    bool has_aad = gcm && r.chance(2, 3), own_iv = r.chance(1, 2);
    Bytes aad = has_aad ? gen_bytes(r, r.chance(1, 8) ? max : 300) : Bytes(), iv = r.chance(1, 4) ? Bytes(C.iv_len, (uint8_t)r.pick({ 0, 255 })) : r.bytes(C.iv_len);
    std::string ctx = fmt("%s pt=%zu aad=%zd iv=%s", gcm ? "GCM" : "CTR", pt.size(), has_aad ? (ssize_t)aad.size() : -1, own_iv ? "given" : "random");
    CK K = mkkey(C, key);
    REQUIRE(K, "key-refused", "a %zu byte key was refused", key.size());
    View P(pt), A(aad), I(iv);
    const wickr_buffer_t *pa = has_aad ? (const wickr_buffer_t *)A : NULL;
    CR x = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, K.get(), own_iv ? (const wickr_buffer_t *)I : NULL));
    REQUIRE(x, "encrypt-failed", "encryption failed (%s)", ctx.c_str());
    EXPECT(eq(P, pt) && eq(A, aad) && eq(I, iv) && eq(K->key_data, key), "input-changed", "encryption changed its inputs (%s)", ctx.c_str());
    EXPECT(cipher_eq(x->cipher, C), "wrong-cipher", "the ciphertext names another cipher (%s)", ctx.c_str());
    REQUIRE(x->iv && x->iv->length == C.iv_len && (!own_iv || eq(x->iv, iv)), "wrong-iv", "the ciphertext has another nonce (%s)", ctx.c_str());
    Bytes uiv = B(x->iv);
    if (gcm) {
        auto g = ref::gcm_enc(key, uiv, aad, pt);
        EXPECT(eq(x->cipher_text, g.ct), "wrong-ciphertext", "not the standard ciphertext (%s)", ctx.c_str());
        EXPECT(x->auth_tag && eq(x->auth_tag, g.tag), "wrong-tag", "not the standard tag (%s)", ctx.c_str());
    } else {
        EXPECT(eq(x->cipher_text, ref::ctr(key, uiv, pt)), "wrong-ciphertext", "not the standard ciphertext (%s)", ctx.c_str());
        EXPECT(!x->auth_tag, "wrong-tag", "an unauthenticated ciphertext has a tag");
    }
    ev(gcm ? "gcm" : "ctr");
    distinct(ctx);
    auto opens = [&](const wickr_cipher_result_t *y, const char *how) {
        for (int auth = 0; auth < 2; auth++) {
            auto p = own(E.wickr_crypto_engine_cipher_decrypt(y, pa, K.get(), auth));
            if (!gcm && auth) { EXPECT(!p, "unauthenticated-accepted", "an unauthenticated ciphertext was accepted (%s)", how); continue; }
            EXPECT(p && eq(p.get(), pt), "wrong-plaintext", "decryption %s does not give the plaintext (%s)", how, ctx.c_str());
            ev("decrypted");
        }
    };
    opens(x.get(), "of the result");
    { auto c = own(wickr_cipher_result_copy(x.get())); REQUIRE(c, "copy", "copy failed"); opens(c.get(), "of a copy"); }
    { auto s = own(wickr_cipher_result_serialize(x.get())); EXPECT(s && eq(s.get(), ref::cipher_result(C.cipher_id, uiv, B(x->auth_tag), B(x->cipher_text))), "wrong-encoding", "not the documented encoding (%s)", ctx.c_str());
      auto c = own(wickr_cipher_result_from_buffer(s.get())); REQUIRE(c, "parse", "a ciphertext is refused after serialization"); opens(c.get(), "after serialization"); }
    { auto kc = own(wickr_cipher_key_copy(K.get())); auto p = own(E.wickr_crypto_engine_cipher_decrypt(x.get(), pa, kc.get(), gcm)); EXPECT(p && eq(p.get(), pt), "wrong-plaintext", "decryption with a copy of the key fails (%s)", ctx.c_str()); }
    // a standard ciphertext made elsewhere
    { Bytes i2 = r.bytes(C.iv_len), ct, tag;
      if (gcm) { auto g = ref::gcm_enc(key, i2, aad, pt); ct = g.ct; tag = g.tag; } else ct = ref::ctr(key, i2, pt);
      auto b = mk(ref::cipher_result(C.cipher_id, i2, tag, ct));
      auto c = own(wickr_cipher_result_from_buffer(b.get()));
      REQUIRE(c, "parse", "a standard ciphertext is refused");
      opens(c.get(), "of a standard ciphertext"); }

    // ---- changes
    auto copy = [&]() { return own(wickr_cipher_result_copy(x.get())); };
    size_t lim = g_thorough ? 400 : 40;
    if (gcm) {
        auto all = [&](const CR &y, const wickr_buffer_t *a, const wickr_cipher_key_t *k, const char *what) { refused(y, a, k, true, what, ctx); if (r.chance(1, 4)) refused(y, a, k, false, what, ctx); };
        { auto y = copy(); each_bit(r, y->auth_tag, 128, [&](size_t) { all(y, pa, K.get(), "a changed tag"); }); }
        { auto y = copy(); each_bit(r, y->iv, 96, [&](size_t) { all(y, pa, K.get(), "a changed nonce"); }); }
        { auto y = copy(); each_bit(r, y->cipher_text, lim, [&](size_t) { all(y, pa, K.get(), "a changed ciphertext"); }); }
        { auto k2 = own(wickr_cipher_key_copy(K.get())); each_bit(r, k2->key_data, lim, [&](size_t) { all(x, pa, k2.get(), "a changed key"); }); }
        if (has_aad) {
            View a2(aad);
            each_bit(r, &a2, lim, [&](size_t) { all(x, a2, K.get(), "changed associated data"); });
            all(x, NULL, K.get(), "missing associated data");
            Bytes lg = aad; lg.push_back((uint8_t)r.pick({ 0, 1 })); View a3(lg);
            all(x, a3, K.get(), "longer associated data");
            if (aad.size() > 1) { View a4(sub(aad, 0, r.range(1, aad.size() - 1))); all(x, a4, K.get(), "shorter associated data"); }
            // moving bytes between associated data and ciphertext
            auto y = copy();
            Bytes mv = cat({ Bytes{ aad.back() }, B(x->cipher_text) });
            wickr_buffer_destroy(&y->cipher_text);
            y->cipher_text = mkp(mv);
            if (aad.size() > 1) { View a5(sub(aad, 0, aad.size() - 1)); all(y, a5, K.get(), "bytes moved out of the associated data"); }
        } else {
            View a3(gen_bytes(r, 100));
            all(x, a3, K.get(), "added associated data");
        }
        for (int i = 0; i < 4; i++) {
            auto y = copy();
            Bytes ct = B(y->cipher_text), c2 = ct;
            switch (i) {
                case 0: if (ct.size() < 2) continue; c2.resize(r.range(1, ct.size() - 1)); break;
                case 1: if (ct.size() < 2) continue; c2.pop_back(); break;
                case 2: c2.push_back(0); break;
                default: { Bytes t = r.bytes(r.range(1, 40)); c2.insert(c2.end(), t.begin(), t.end()); }
            }
            wickr_buffer_destroy(&y->cipher_text);
            y->cipher_text = mkp(c2);
            all(y, pa, K.get(), "a ciphertext of another length");
        }
        { auto y = copy(); wickr_buffer_destroy(&y->cipher_text); all(y, pa, K.get(), "a missing ciphertext"); }
        { auto y = copy(); wickr_buffer_destroy(&y->auth_tag); all(y, pa, K.get(), "a missing tag"); }
        for (size_t n : { (size_t)0, (size_t)1, (size_t)4, (size_t)8, (size_t)12, (size_t)15, (size_t)17, (size_t)32 }) {
            auto y = copy();
            Bytes t = B(y->auth_tag);
            t.resize(n);
            View tv(t);
            wickr_buffer_t *keep = y->auth_tag;
            y->auth_tag = &tv;
            all(y, pa, K.get(), "a tag of another length");
            y->auth_tag = keep;
        }
        // presented as unauthenticated
        { auto y = copy(); y->cipher = CIPHER_AES256_CTR; all(y, NULL, K.get(), "an authenticated ciphertext relabelled as unauthenticated");
          auto k2 = mkkey(CIPHER_AES256_CTR, key);
          auto s = B(own(wickr_cipher_result_serialize(x.get())));
          s[0] = CIPHER_AES256_CTR.cipher_id;
          View sv(s);
          auto z = own(wickr_cipher_result_from_buffer(sv));
          if (z) { refused(z, NULL, k2.get(), true, "an unauthenticated ciphertext where authentication is required", ctx); refused(z, NULL, K.get(), false, "an authenticated ciphertext relabelled as unauthenticated", ctx); } }
        { auto k2 = mkkey(CIPHER_AES256_CTR, key); all(x, pa, k2.get(), "a key of another cipher"); }
    } else {
        auto k2 = mkkey(CIPHER_AES256_GCM, key);
        refused(x, NULL, k2.get(), false, "a key of another cipher", ctx);
        View a(gen_bytes(r, 60));
        refused(x, a, K.get(), false, "associated data with an unauthenticated cipher", ctx);
        refused(x, NULL, K.get(), true, "an unauthenticated ciphertext where authentication is required", ctx);
        auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, a, K.get(), NULL));
        EXPECT(!y, "accepted:aad-ctr", "an unauthenticated cipher accepted associated data");
        auto s = B(own(wickr_cipher_result_serialize(x.get())));
        s[0] = CIPHER_AES256_GCM.cipher_id;
        View sv(s);
        auto z = own(wickr_cipher_result_from_buffer(sv));
        if (z) { refused(z, NULL, k2.get(), true, "an unauthenticated ciphertext relabelled as authenticated", ctx); refused(z, NULL, K.get(), true, "an unauthenticated ciphertext relabelled as authenticated", ctx); }
    }
    // ---- wrong sizes
    for (int i = 0; i < 6; i++) {
        size_t n = r.pick<size_t>({ 0, 1, 8, (size_t)C.iv_len - 1, (size_t)C.iv_len + 1, 12, 16, 32, r.range(1, 64) });
        if (n == (size_t)C.iv_len) continue;
        View bad(r.bytes(n));
        auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, K.get(), bad));
        EXPECT(!y, "accepted:nonce-size", "encryption accepted a nonce of %zu bytes (%s)", n, ctx.c_str());
        auto z = copy();
        wickr_buffer_t *keep = z->iv;
        z->iv = &bad;
        refused(z, pa, K.get(), gcm, "a nonce of another length", ctx);
        z->iv = keep;
        if (n) { wickr_buffer_t *b = mkp(r.bytes(n)), *t = gcm ? mkp(r.bytes(16)) : NULL, *c = mkp(pt);
                 auto q = own(wickr_cipher_result_create(C, b, c, t));
                 EXPECT(!q, "accepted:nonce-size", "a ciphertext with a nonce of %zu bytes was created", n);
                 if (!q) { wickr_buffer_destroy(&b); wickr_buffer_destroy(&t); wickr_buffer_destroy(&c); } }
        ev("wrong_sizes");
    }
    for (size_t n : { (size_t)1, (size_t)4, (size_t)8, (size_t)11, (size_t)12, (size_t)13, (size_t)15, (size_t)16, (size_t)17, (size_t)32 }) {
        if (gcm && n == 16) continue;
        wickr_buffer_t *b = mkp(iv), *t = mkp(r.bytes(n)), *c = mkp(pt);
        auto q = own(wickr_cipher_result_create(C, b, c, t));
        EXPECT(!q, "accepted:tag-size", "a ciphertext with a tag of %zu bytes was created (%s)", n, ctx.c_str());
        if (!q) { wickr_buffer_destroy(&b); wickr_buffer_destroy(&t); wickr_buffer_destroy(&c); }
        ev("wrong_sizes");
    }
    for (size_t n : { (size_t)0, (size_t)1, (size_t)16, (size_t)24, (size_t)31, (size_t)33, (size_t)64 }) {
        View bad(r.bytes(n));
        EXPECT(!own(wickr_cipher_key_create(C, &bad)), "accepted:key-size", "a key of %zu bytes was created", n);
        wickr_cipher_key_t kk = { C, &bad };
        auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, &kk, NULL));
        EXPECT(!y, "accepted:key-size", "encryption accepted a key of %zu bytes (%s)", n, ctx.c_str());
        refused(x, pa, &kk, gcm, "a key of another length", ctx);
        ev("wrong_sizes");
    }
    EXPECT(!own(E.wickr_crypto_engine_cipher_encrypt(NULL, pa, K.get(), NULL)) && !own(E.wickr_crypto_engine_cipher_encrypt(P, pa, NULL, NULL)), "accepted:missing", "encryption without its inputs succeeded");
    EXPECT(!own(E.wickr_crypto_engine_cipher_decrypt(NULL, pa, K.get(), true)) && !own(E.wickr_crypto_engine_cipher_decrypt(x.get(), pa, NULL, true)), "accepted:missing", "decryption without its inputs succeeded");
    // everything tried above left the original as it was
    opens(x.get(), "after refused attempts");
    // random nonces differ
    { auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, K.get(), NULL)), z = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, K.get(), NULL));
      EXPECT(y && z && !same(y->iv, z->iv), "nonce-reused", "two encryptions chose the same nonce"); }
    // keys generated by the library
    { auto k2 = own(E.wickr_crypto_engine_cipher_key_random(C));
      REQUIRE(k2 && cipher_eq(k2->cipher, C) && k2->key_data->length == 32, "key-random", "no key was generated");
      auto s = own(wickr_cipher_key_serialize(k2.get()));
      auto k3 = own(wickr_cipher_key_from_buffer(s.get()));
      auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, k2.get(), NULL));
      auto p = y ? own(E.wickr_crypto_engine_cipher_decrypt(y.get(), pa, k3.get(), gcm)) : nullptr;
      EXPECT(p && eq(p.get(), pt), "wrong-plaintext", "a generated key does not decrypt after serialization"); }
}
// associated data longer than what one operation of the provider can take
static void huge_aad(Rng &r)
{
    size_t n = (size_t)INT32_MAX + r.range(1, 1000);
    void *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    wickr_buffer_t a;
    a.bytes = (uint8_t *)p;
    a.length = n;
    View P(r.bytes(40));
    auto K = mkkey(CIPHER_AES256_GCM, r.bytes(32));
    auto x = own(E.wickr_crypto_engine_cipher_encrypt(P, NULL, K.get(), NULL));
    REQUIRE(x, "encrypt-failed", "encryption failed");
    auto d = own(E.wickr_crypto_engine_cipher_decrypt(x.get(), &a, K.get(), true));
    EXPECT(!d, "accepted:huge-aad", "associated data of %zu bytes was ignored", n);
    View A(r.bytes(10));
    x = own(E.wickr_crypto_engine_cipher_encrypt(P, A, K.get(), NULL));
    auto y = own(E.wickr_crypto_engine_cipher_encrypt(P, &a, K.get(), NULL));
    if (y) { auto z = own(E.wickr_crypto_engine_cipher_decrypt(y.get(), NULL, K.get(), true)); EXPECT(!z, "accepted:huge-aad", "associated data of %zu bytes was ignored", n); }
    munmap(p, n);
    ev("huge_aad");
}
// plaintexts past the sizes that three bytes of length can express
static void large(Rng &r)
{
    Bytes key = r.bytes(32), pt = r.bytes((16u << 20) + r.range(1, 100000)), aad = r.bytes(40);
    for (bool gcm : { true, false }) {
        wickr_cipher_t C = gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
        CK K = mkkey(C, key);
        View P(pt), A(aad);
        const wickr_buffer_t *pa = gcm ? (const wickr_buffer_t *)A : NULL;
        CR x = own(E.wickr_crypto_engine_cipher_encrypt(P, pa, K.get(), NULL));
        REQUIRE(x, "encrypt-failed", "encrypting %zu bytes failed", pt.size());
        if (gcm) { auto g = ref::gcm_enc(key, B(x->iv), aad, pt); EXPECT(eq(x->cipher_text, g.ct) && eq(x->auth_tag, g.tag), "wrong-ciphertext", "not the standard ciphertext of %zu bytes", pt.size()); }
        else EXPECT(eq(x->cipher_text, ref::ctr(key, B(x->iv), pt)), "wrong-ciphertext", "not the standard ciphertext of %zu bytes", pt.size());
        auto s = own(wickr_cipher_result_serialize(x.get()));
        auto y = s ? own(wickr_cipher_result_from_buffer(s.get())) : nullptr;
        auto p = y ? own(E.wickr_crypto_engine_cipher_decrypt(y.get(), pa, K.get(), gcm)) : nullptr;
        EXPECT(p && eq(p.get(), pt), "wrong-plaintext", "decrypting %zu bytes does not give the plaintext", pt.size());
        if (gcm) for (int i = 0; i < 4; i++) {
            size_t at = i == 0 ? pt.size() - 1 : i == 1 ? (16u << 20) : r.below(pt.size());
            x->cipher_text->bytes[at] ^= 1;
            refused(x, pa, K.get(), true, "a changed ciphertext", "large");
            x->cipher_text->bytes[at] ^= 1;
        }
    }
    ev("large_texts");
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    if (k == 0) huge_aad(r);
    if (k == 1) large(r);
    one(r, k % 40 == 7 ? (g_thorough ? 3000000 : 300000) : 5000);
    if (r.chance(1, 60)) sample(fmt("case %" PRIu64 " checked", k));
}
} // namespace v
