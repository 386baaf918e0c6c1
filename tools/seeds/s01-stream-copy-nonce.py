PROPERTY='C06'
EDITS=[('src/stream_iv.c','    copy_iv->gen_count = iv->gen_count;\n','    copy_iv->gen_count = 0;\n')]
NEEDS='an encrypting stream that is copied after it has encrypted packets, and the copy going on within the same epoch'
BREAKS='the copy of an encrypting stream starts its nonce sequence again, so it encrypts later packets under the same key and nonce as earlier ones'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_stream_key_t *k = wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 512);
    wickr_stream_ctx_t *s = wickr_stream_ctx_create(e, k, STREAM_DIRECTION_ENCODE);
    wickr_cipher_result_t *r[8];
    wickr_buffer_t *m = str("hello");
    for (int i = 0; i < 4; i++) { r[i] = wickr_stream_ctx_encode(s, m, NULL, i + 1); CHECK(r[i], "encode"); }
    wickr_stream_ctx_t *c = wickr_stream_ctx_copy(s);
    for (int i = 4; i < 8; i++) { r[i] = wickr_stream_ctx_encode(c, m, NULL, i + 1); CHECK(r[i], "encode"); }
    for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) CHECK(!eqb(r[i]->iv, r[j]->iv), "packets %d and %d share key and nonce", i, j);
    return 0;
}
'''
