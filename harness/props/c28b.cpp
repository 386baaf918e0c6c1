// C28, one layer down: the library's own provider reports the failure of the OpenSSL primitives it is built on. Every call into
// libcrypto that can fail is refused in turn, alone or with all later ones, in every operation.
#include "../faults.hpp"
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/bn.h>
#include <openssl/hmac.h>
#include <openssl/rand.h>
#include <openssl/kdf.h>
#include <stdarg.h>
#define W1(T, name, fail, params, args) T __real_##name params; T __wrap_##name params { return v::refuse(#name, 0) ? (fail) : __real_##name args; }
namespace v { static int NEG; }      // what functions that document "0 or negative" give when they fail
extern "C" {
#define P(T, name, params, args) W1(T *, name, NULL, params, args)
#define I(name, params, args) W1(int, name, 0, params, args)
#define N(name, params, args) W1(int, name, v::NEG, params, args)
P(BIGNUM, BN_bin2bn, (const unsigned char *s, int n, BIGNUM *r), (s, n, r))
P(BIGNUM, BN_new, (void), ())
N(BN_bn2binpad, (const BIGNUM *a, unsigned char *t, int n), (a, t, n))
P(ECDSA_SIG, ECDSA_SIG_new, (void), ())
I(ECDSA_SIG_set0, (ECDSA_SIG *s, BIGNUM *r, BIGNUM *q), (s, r, q))
P(ECDSA_SIG, d2i_ECDSA_SIG, (ECDSA_SIG **s, const unsigned char **p, long n), (s, p, n))
N(i2d_ECDSA_SIG, (const ECDSA_SIG *s, unsigned char **p), (s, p))
P(EC_KEY, EC_KEY_new_by_curve_name, (int n), (n))
I(EC_KEY_generate_key, (EC_KEY *k), (k))
I(EC_KEY_set_private_key, (EC_KEY *k, const BIGNUM *b), (k, b))
I(EC_KEY_set_public_key, (EC_KEY *k, const EC_POINT *p), (k, p))
P(EC_POINT, EC_POINT_new, (const EC_GROUP *g), (g))
I(EC_POINT_mul, (const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c), (g, r, n, q, m, c))
P(EC_KEY, d2i_ECPrivateKey, (EC_KEY **k, const unsigned char **p, long n), (k, p, n))
N(i2d_ECPrivateKey, (const EC_KEY *k, unsigned char **p), (k, p))
N(i2o_ECPublicKey, (const EC_KEY *k, unsigned char **p), (k, p))
P(EC_KEY, o2i_ECPublicKey, (EC_KEY **k, const unsigned char **p, long n), (k, p, n))
P(EVP_CIPHER_CTX, EVP_CIPHER_CTX_new, (void), ())
I(EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX *c, int t, int a, void *p), (c, t, a, p))
I(EVP_EncryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i), (c, t, e, k, i))
I(EVP_EncryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *n, const unsigned char *i, int m), (c, o, n, i, m))
I(EVP_EncryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *n), (c, o, n))
I(EVP_DecryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i), (c, t, e, k, i))
I(EVP_DecryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *n, const unsigned char *i, int m), (c, o, n, i, m))
I(EVP_DecryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *n), (c, o, n))
P(EVP_MD_CTX, EVP_MD_CTX_new, (void), ())
I(EVP_DigestInit, (EVP_MD_CTX *c, const EVP_MD *t), (c, t))
I(EVP_DigestInit_ex, (EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e), (c, t, e))
I(EVP_DigestUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
I(EVP_DigestFinal, (EVP_MD_CTX *c, unsigned char *d, unsigned int *n), (c, d, n))
I(EVP_DigestFinal_ex, (EVP_MD_CTX *c, unsigned char *d, unsigned int *n), (c, d, n))
N(EVP_DigestSignInit, (EVP_MD_CTX *c, EVP_PKEY_CTX **p, const EVP_MD *t, ENGINE *e, EVP_PKEY *k), (c, p, t, e, k))
N(EVP_DigestSignUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
N(EVP_DigestSignFinal, (EVP_MD_CTX *c, unsigned char *s, size_t *n), (c, s, n))
N(EVP_DigestVerifyInit, (EVP_MD_CTX *c, EVP_PKEY_CTX **p, const EVP_MD *t, ENGINE *e, EVP_PKEY *k), (c, p, t, e, k))
N(EVP_DigestVerifyUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
int __real_EVP_DigestVerifyFinal(EVP_MD_CTX *c, const unsigned char *s, size_t n);
int __wrap_EVP_DigestVerifyFinal(EVP_MD_CTX *c, const unsigned char *s, size_t n) { if (v::refuse("EVP_DigestVerifyFinal", 0)) return v::NEG; int ok = __real_EVP_DigestVerifyFinal(c, s, n); if (ok == 1) v::M.verified++; return ok; }
P(EVP_PKEY, EVP_PKEY_new, (void), ())
I(EVP_PKEY_assign, (EVP_PKEY *k, int t, void *p), (k, t, p))
I(EVP_PKEY_set1_EC_KEY, (EVP_PKEY *k, struct ec_key_st *p), (k, p))
P(EVP_PKEY_CTX, EVP_PKEY_CTX_new, (EVP_PKEY *k, ENGINE *e), (k, e))
P(EVP_PKEY_CTX, EVP_PKEY_CTX_new_id, (int i, ENGINE *e), (i, e))
N(EVP_PKEY_derive_init, (EVP_PKEY_CTX *c), (c))
N(EVP_PKEY_derive_set_peer, (EVP_PKEY_CTX *c, EVP_PKEY *k), (c, k))
N(EVP_PKEY_derive, (EVP_PKEY_CTX *c, unsigned char *k, size_t *n), (c, k, n))
N(EVP_PKEY_CTX_set_hkdf_mode, (EVP_PKEY_CTX *c, int m), (c, m))
N(EVP_PKEY_CTX_set_hkdf_md, (EVP_PKEY_CTX *c, const EVP_MD *m), (c, m))
N(EVP_PKEY_CTX_set1_hkdf_salt, (EVP_PKEY_CTX *c, const unsigned char *s, int n), (c, s, n))
N(EVP_PKEY_CTX_set1_hkdf_key, (EVP_PKEY_CTX *c, const unsigned char *s, int n), (c, s, n))
N(EVP_PKEY_CTX_add1_hkdf_info, (EVP_PKEY_CTX *c, const unsigned char *s, int n), (c, s, n))
W1(unsigned char *, HMAC, NULL, (const EVP_MD *m, const void *k, int n, const unsigned char *d, size_t l, unsigned char *o, unsigned int *p), (m, k, n, d, l, o, p))
N(RAND_bytes, (unsigned char *b, int n), (b, n))
}
namespace v {
const char *PROP_ID = "C28";
// the digest that remembers an earlier verification may fail, if the whole result is there and every signature was still verified
static bool is_digest(const char *f) { return !strncmp(f, "EVP_Digest", 10) || !strcmp(f, "EVP_MD_CTX_new"); }
static bool may_succeed(const Oc &o, const std::string &wrong) { return wrong.empty() && o.digest_ok && is_digest(M.what) && M.verified >= VERIFIED; }
static bool may_ignore(int) { return is_digest(M.what); }      // (then everything has to arrive)
void prop_init()
{
    UNIT = "call into libcrypto";
    E = plain_engine();
    Rng r(g_seed * 577 + 128);
    W.build(r, 5, E);
    kinds();
    make_ops();
    more_ops();
}
static const size_t CONV = 8;
void prop_case(uint64_t k, Rng &r)
{
    size_t n = OPS.size() + CONV, i = (size_t)(k % n);
    NEG = -(int)r.below(2);
    if (i < OPS.size()) all_faults(OPS[i], r.u64());
    else transports(r);
}
void prop_fini() {}
} // namespace v
