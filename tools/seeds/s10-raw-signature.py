PROPERTY='C20'
EDITS=[('src/openssl_suite.c','''    if (!input || input->length != curve.raw_signature_size) {
        return NULL;
    }
    
    BIGNUM *r = BN_new();''','''    if (!input || input->length == 0 || input->length > curve.raw_signature_size) {
        return NULL;
    }
    
    BIGNUM *r = BN_new();''')]
NEEDS='a raw signature of the wrong (shorter) length'
BREAKS='truncated raw signatures are accepted as signatures'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_buffer_t *raw = fill(0x01, 132);
    CHECK(e.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, raw), "well-formed raw signature refused");
    for (size_t n = 131; n > 0; n--) {
        raw->length = n;
        CHECK(!e.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, raw), "raw signature of %d bytes accepted", (int)n);
    }
    return 0;
}
'''
