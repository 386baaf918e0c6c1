PROPERTY='C08'
EDITS=[('src/stream_ctx.c','''                                                                                      curr_key->evolution_key,
''','''                                                                                      encoder->key->evolution_key,
''')]
NEEDS='a stream that skips at least two epochs between two packets (packets lost, or a gap in the sequence numbers)'
BREAKS='keys after a gap of more than one epoch are not the ones of the documented evolution, so sender and receiver disagree'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_stream_key_t *k = wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 4);
    wickr_stream_ctx_t *s = wickr_stream_ctx_create(e, wickr_stream_key_copy(k), STREAM_DIRECTION_ENCODE), *d = wickr_stream_ctx_create(e, wickr_stream_key_copy(k), STREAM_DIRECTION_DECODE);
    CHECK(s && d, "create");
    wickr_buffer_t *m = str("hello");
    for (uint64_t i = 1; i < 40; i++) {
        wickr_cipher_result_t *r = wickr_stream_ctx_encode(s, m, NULL, i);
        CHECK(r, "encode");
        if (i > 2 && i < 30) continue; /* lost */
        CHECK(eqb(wickr_stream_ctx_decode(d, r, NULL, i), m), "packet %d can not be opened", (int)i);
    }
    return 0;
}
'''
