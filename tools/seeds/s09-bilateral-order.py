PROPERTY='C22'
EDITS=[('src/fingerprint.c','''        if (f1->data->bytes[i] > f2->data->bytes[i]) {''','''        if ((int8_t)(f1->data->bytes[i] - f2->data->bytes[i]) > 0) {''')]
NEEDS='two identities whose fingerprints differ by exactly 128 in the first differing byte'
BREAKS='the two-party fingerprint depends on which side computes it (and for other pairs differs from the documented one)'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    for (int x = 0; x < 256; x++) for (int y = 0; y < x; y++) {
        wickr_buffer_t *a = fill(7, 64), *b = fill(7, 64);
        a->bytes[3] = x; b->bytes[3] = y;
        wickr_fingerprint_t *f = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, a), *g = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, b);
        wickr_fingerprint_t *p = wickr_fingerprint_gen_bilateral(e, f, g, WICKR_FINGERPRINT_TYPE_SHA512), *q = wickr_fingerprint_gen_bilateral(e, g, f, WICKR_FINGERPRINT_TYPE_SHA512);
        CHECK(p && q && eqb(p->data, q->data), "the two sides disagree (%d, %d)", x, y);
    }
    return 0;
}
'''
