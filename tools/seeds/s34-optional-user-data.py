PROPERTY='C31'
EDITS=[('src/stream_key.c','''    wickr_buffer_t *evo_key_copy = wickr_buffer_copy(stream_key->evolution_key);
    
    if (!evo_key_copy) {
        wickr_cipher_key_destroy(&key_copy);
        return NULL;
    }
    
    wickr_buffer_t *user_data_copy = wickr_buffer_copy(stream_key->user_data);
    
    if (stream_key->user_data && !user_data_copy) {
''','''    /* User data is optional, the evolution key is not */
    wickr_buffer_t *user_data_copy = wickr_buffer_copy(stream_key->user_data);
    wickr_buffer_t *evo_key_copy = wickr_buffer_copy(stream_key->evolution_key);
    
    if (!evo_key_copy) {
''')]
NEEDS='a stream key with user data copied while the copy of the user data cannot be allocated'
BREAKS='the copy is reported as made without the user data (the associated data that binds the stream to its handshake)'
FLAGS='-Wl,--wrap=malloc,--wrap=calloc'
DEMO=r'''
static long left = -1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
static int no(void) { if (left < 0) return 0; if (left == 0) { left = -1; return 1; } left--; return 0; }
void *__wrap_malloc(size_t n) { return no() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return no() ? NULL : __real_calloc(n, m); }
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_stream_key_t *k = wickr_stream_key_create_user_data(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), fill(3, 64), 7, str("user data"));
    CHECK(k, "key");
    int refused = 0;
    for (long n = 0; n < 100; n++) {
        left = n;
        wickr_stream_key_t *c = wickr_stream_key_copy(k);
        int all = left >= 0;
        left = -1;
        if (!c) refused++;
        else CHECK(eqb(c->user_data, k->user_data) && eqb(c->evolution_key, k->evolution_key), "the copy is incomplete when allocation %ld is refused", n);
        wickr_stream_key_destroy(&c);
        if (all) { CHECK(refused > 3, "refused"); return 0; }
    }
    return 1;
}
'''
