PROPERTY='C25'
EDITS=[('src/devinfo.c','''    wickr_buffer_t *system_salt = crypto->wickr_crypto_engine_digest(system_id, NULL, DIGEST_SHA_256);''',
'''    wickr_buffer_t salted_part = { .bytes = system_id->bytes, .length = system_id->length < 64 ? system_id->length : 64 };
    wickr_buffer_t *system_salt = crypto->wickr_crypto_engine_digest(&salted_part, NULL, DIGEST_SHA_256);''')]
NEEDS='two system identifiers longer than 64 bytes which agree in their first 64 bytes'
BREAKS='different devices of an account get the same local storage key'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    device_t a = device("alice", "sysa");
    for (size_t n = 1; n < 200; n++) {
        wickr_buffer_t *s1 = fill('s', n), *s2 = fill('s', n), *salt = fill(3, 64);
        s2->bytes[n - 1] = 't';
        wickr_dev_info_t *d1 = wickr_dev_info_derive(&e, wickr_buffer_copy(salt), s1), *d2 = wickr_dev_info_derive(&e, wickr_buffer_copy(salt), s2);
        wickr_storage_keys_t *k1 = wickr_root_keys_localize(a.gen->root_keys, &e, d1), *k2 = wickr_root_keys_localize(a.gen->root_keys, &e, d2);
        CHECK(!eqb(k1->local->key_data, k2->local->key_data), "two devices share their local storage key (system identifiers of %zu bytes)", n);
        CHECK(eqb(k1->remote->key_data, k2->remote->key_data), "remote key");
    }
    return 0;
}
'''
