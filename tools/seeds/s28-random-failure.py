PROPERTY='C28'
EDITS=[('src/openssl_suite.c','''    if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {''','''    if (RAND_bytes(new_buffer->bytes, (int)len) < 0) {''')]
NEEDS='the random generator failing (it returns 0)'
BREAKS='keys, nonces and salts are made of uninitialized memory when the random generator fails, and the call reports success'
DEMO=r'''
int failing;
int RAND_bytes(unsigned char *b, int n) { if (failing) return 0; FILE *f = fopen("/dev/urandom", "rb"); size_t k = fread(b, 1, n, f); fclose(f); return k == (size_t)n; }
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_buffer_t *ok = e.wickr_crypto_engine_crypto_random(32);
    CHECK(ok && ok->length == 32, "random");
    wickr_cipher_key_t *k = e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM);
    CHECK(k, "key");
    wickr_buffer_t *d = str("data");
    failing = 1;
    CHECK(!e.wickr_crypto_engine_crypto_random(32), "random bytes although the generator failed");
    CHECK(!e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), "key although the generator failed");
    CHECK(!e.wickr_crypto_engine_cipher_encrypt(d, NULL, k, NULL), "encrypted although the generator failed");
    return 0;
}
'''
