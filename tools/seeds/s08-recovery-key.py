PROPERTY='C13'
EDITS=[('src/wickr_ctx.c','''    gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
    
    if''','''    gen_result->recovery_key = engine.wickr_crypto_engine_cipher_key_random(recovery_key->cipher);
    
    if''')]
NEEDS='an account recovered on a new device, which makes new recovery data, that is then used with the account\'s recovery key'
BREAKS='recovery data made by a recovered device can not be opened with the recovery key of the account'
DEMO=r'''
int main(void)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    device_t a = device("alice", "sysa");
    wickr_buffer_t *rec = wickr_ctx_gen_result_make_recovery(a.gen), *sys = str("sys2"), *id = str("alice");
    wickr_dev_info_t *di = wickr_dev_info_create_new(&e, sys);
    wickr_ctx_gen_result_t *g = wickr_ctx_gen_with_recovery(e, di, rec, a.gen->recovery_key, id);
    CHECK(g, "recovery");
    wickr_buffer_t *rec2 = wickr_ctx_gen_result_make_recovery(g);
    wickr_root_keys_t *k = wickr_ctx_gen_import_recovery(e, rec2, a.gen->recovery_key);
    CHECK(k, "recovery data of the recovered device does not open with the account's recovery key");
    return 0;
}
'''
