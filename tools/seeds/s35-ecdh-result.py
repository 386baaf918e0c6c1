PROPERTY='C28'
EDITS=[('src/openssl_suite.c','''        /* Derive the ECDH shared secret */
        if (1 != EVP_PKEY_derive(ctx, shared_secret_buffer->bytes, &shared_secret_buffer->length)) {
''','''        /* Derive the ECDH shared secret, negative results are errors */
        if (EVP_PKEY_derive(ctx, shared_secret_buffer->bytes, &shared_secret_buffer->length) < 0) {
''')]
NEEDS='the derivation primitive reporting failure with 0 (it documents "0 or a negative value") after it reported the size of the secret'
BREAKS='a failed ECDH derivation is reported as success with a secret of zeros'
FLAGS='-Wl,--wrap=EVP_PKEY_derive'
DEMO=r'''
#include <openssl/evp.h>
static int armed, result;
int __real_EVP_PKEY_derive(EVP_PKEY_CTX *c, unsigned char *k, size_t *n);
int __wrap_EVP_PKEY_derive(EVP_PKEY_CTX *c, unsigned char *k, size_t *n) { if (armed && k) return result; return __real_EVP_PKEY_derive(c, k, n); }
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_ec_key_t *a = e.wickr_crypto_engine_ec_rand_key(e.default_curve), *b = e.wickr_crypto_engine_ec_rand_key(e.default_curve);
    CHECK(a && b, "keys");
    wickr_buffer_t *x = e.wickr_crypto_engine_gen_shared_secret(a, b), *y = e.wickr_crypto_engine_gen_shared_secret(b, a);
    CHECK(x && y && eqb(x, y), "ecdh");
    for (result = -1; result <= 0; result++) {
        armed = 1;
        wickr_buffer_t *z = e.wickr_crypto_engine_gen_shared_secret(a, b);
        armed = 0;
        CHECK(!z, "a failed derivation (%d) gives a secret", result);
    }
    return 0;
}
'''
