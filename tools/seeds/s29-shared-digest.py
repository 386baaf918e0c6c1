PROPERTY='C29'
EDITS=[('src/openssl_suite.c','''wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    if (!buffer) {
        return NULL;
    }
    
    EVP_MD_CTX *c = EVP_MD_CTX_create();
    
    if (!c) {
        return NULL;
    }
    ''','''wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    /* Remember the most recent digest, contexts are frequently asked for the same one */
    static uint8_t last_input[128], last_output[64];
    static size_t last_length;
    static wickr_digest_id last_id;
    
    if (!buffer || mode.size > sizeof(last_output)) {
        return NULL;
    }
    
    if (!salt && buffer->length == last_length && last_id == mode.digest_id &&
        memcmp(last_input, buffer->bytes, last_length) == 0) {
        return wickr_buffer_create(last_output, mode.size);
    }
    
    EVP_MD_CTX *c = EVP_MD_CTX_create();
    
    if (!c) {
        return NULL;
    }
    '''),('src/openssl_suite.c','''    if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
        wickr_buffer_destroy(&hash_result);
        EVP_MD_CTX_destroy(c);
        return NULL;
    }
    
    EVP_MD_CTX_destroy(c);
    
    return hash_result;
}

wickr_buffer_t *openssl_sha2_file(''','''    if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
        wickr_buffer_destroy(&hash_result);
        EVP_MD_CTX_destroy(c);
        return NULL;
    }
    
    EVP_MD_CTX_destroy(c);
    
    if (!salt && buffer->length <= sizeof(last_input)) {
        memcpy(last_input, buffer->bytes, buffer->length);
        memcpy(last_output, hash_result->bytes, hash_result->length);
        last_length = buffer->length;
        last_id = mode.digest_id;
    }
    
    return hash_result;
}

wickr_buffer_t *openssl_sha2_file(''')]
NEEDS='two threads computing digests of inputs of the same length at the same time'
BREAKS='a digest computed in one thread can be that of another thread\'s input'
FLAGS='-fsanitize=thread'
DEMO=r'''
#include <pthread.h>
#include <openssl/sha.h>
static volatile int bad;
static void *work(void *arg)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_buffer_t *b = fill((uint8_t)(size_t)arg, 64);
    uint8_t want[64];
    SHA512(b->bytes, 64, want);
    for (int i = 0; i < 20000; i++) {
        wickr_buffer_t *h = e.wickr_crypto_engine_digest(b, NULL, DIGEST_SHA_512);
        if (!h || memcmp(h->bytes, want, 64)) bad = 1;
        wickr_buffer_destroy(&h);
    }
    return NULL;
}
int main(void)
{
    pthread_t t[4];
    for (size_t i = 0; i < 4; i++) pthread_create(&t[i], NULL, work, (void *)(i + 1));
    for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    CHECK(!bad, "a digest is wrong");
    return 0;
}
'''
