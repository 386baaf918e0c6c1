# Behaviour-preserving edits: every check has to stay quiet with all of them applied (tools/quiet/run r1).
# (file relative to src/wickrcrypto/src, old text, new text)
EDITS = [
# protocol.c: recipients validated backwards, payload encrypted first, packet assembled piecewise
("protocol.c", """    for (int i = 0; i < recipient_count; i++) {
        
        wickr_node_t *one_node = wickr_node_array_fetch_item(recipients, i);
        
        if (!wickr_node_verify_signature_chain(one_node, engine)) {
            return false;
        }
        
    }
    
    return true;""",
"""    bool all_valid = true;
    
    for (uint32_t left = recipient_count; left > 0 && all_valid; left--) {
        all_valid = wickr_node_verify_signature_chain(wickr_node_array_fetch_item(recipients, left - 1), engine);
    }
    
    return all_valid;"""),
("protocol.c", """    wickr_exchange_array_t *exchange_array = wickr_exchange_array_new(recipient_count);
    
    for (int i = 0; i < recipient_count; i++) {
        
        wickr_node_t *one_node""",
"""    wickr_cipher_result_t *enc_payload = wickr_payload_encrypt(payload, engine, payload_key);
    
    if (!enc_payload) {
        return NULL;
    }
    
    wickr_exchange_array_t *exchange_array = wickr_exchange_array_new(recipient_count);
    
    for (int i = (int)recipient_count - 1; i >= 0; i--) {
        
        wickr_node_t *one_node"""),
("protocol.c", """        if (!one_exchange) {
            wickr_exchange_array_destroy(&exchange_array);
            return NULL;
        }
        
        if (!wickr_exchange_array_set_item(exchange_array, i, one_exchange)) {
            wickr_key_exchange_destroy(&one_exchange);
            wickr_exchange_array_destroy(&exchange_array);
            return NULL;
        }""",
"""        if (!one_exchange || !wickr_exchange_array_set_item(exchange_array, i, one_exchange)) {
            wickr_key_exchange_destroy(&one_exchange);
            wickr_exchange_array_destroy(&exchange_array);
            wickr_cipher_result_destroy(&enc_payload);
            return NULL;
        }"""),
("protocol.c", """    if (!enc_header) {
        return NULL;
    }
    
    wickr_cipher_result_t *enc_payload = wickr_payload_encrypt(payload, engine, payload_key);
    
    if (!enc_payload) {
        wickr_cipher_result_destroy(&enc_header);
        return NULL;
    }
""", """    if (!enc_header) {
        wickr_cipher_result_destroy(&enc_payload);
        return NULL;
    }
"""),
("protocol.c", """    wickr_buffer_t version_buffer = { sizeof(uint8_t), &version };
    wickr_buffer_t meta_buffer = { sizeof(uint8_t), &meta_data };
    
    wickr_buffer_t *components[] = { &version_buffer, &meta_buffer, packet->content, sig_data };
    
    wickr_buffer_t *serialized_packet = wickr_buffer_concat_multi(components, BUFFER_ARRAY_LEN(components));
    wickr_buffer_destroy(&sig_data);
""", """    if (packet->content->length > MAX_BUFFER_SIZE - PACKET_META_SIZE - sig_data->length) {
        wickr_buffer_destroy(&sig_data);
        return NULL;
    }
    
    wickr_buffer_t *serialized_packet = wickr_buffer_create_empty_zero(PACKET_META_SIZE + packet->content->length + sig_data->length);
    
    if (serialized_packet) {
        serialized_packet->bytes[0] = version;
        serialized_packet->bytes[1] = meta_data;
        memcpy(serialized_packet->bytes + PACKET_META_SIZE, packet->content->bytes, packet->content->length);
        memcpy(serialized_packet->bytes + PACKET_META_SIZE + packet->content->length, sig_data->bytes, sig_data->length);
    }
    
    wickr_buffer_destroy(&sig_data);
"""),
# parse: payload decoded before the header is opened
("protocol.c", """    if (parse_result->signature_status != PACKET_SIGNATURE_VALID || !receiver_decode_key) {""", None),
# array.c: a plain pointer table
("array.c", "    wickr_buffer_t *item_store;\n};", "    void **items;\n};"),
("array.c", """    wickr_buffer_t *item_store = NULL;
    
    if (item_count != 0) {
        item_store = wickr_buffer_create_empty_zero(sizeof(uintptr_t) * item_count);
        
        if (!item_store) {
            return NULL;
        }
    }
""", """    void **items = NULL;
    
    if (item_count != 0) {
        
        if (item_count > MAX_BUFFER_SIZE / sizeof(void *)) {
            return NULL;
        }
        
        items = wickr_alloc_zero(sizeof(void *) * item_count);
        
        if (!items) {
            return NULL;
        }
    }
"""),
("array.c", "        wickr_buffer_destroy(&item_store);\n        return NULL;", "        wickr_free(items);\n        return NULL;"),
("array.c", "    new_array->item_store = item_store;", "    new_array->items = items;"),
("array.c", """    uintptr_t *item_list = (uintptr_t *)array->item_store->bytes;
    return (void *)(item_list[index]);""", "    return array->items[index];"),
("array.c", """	uintptr_t ptr_to_write = (uintptr_t)item_to_write;
    return wickr_buffer_modify_section(array->item_store, (uint8_t *)&ptr_to_write, index * sizeof(uintptr_t), sizeof(uintptr_t));""",
"""    array->items[index] = item_to_write;
    return true;"""),
("array.c", "    wickr_buffer_destroy(&(*array)->item_store);\n    free(*array);", "    wickr_free((*array)->items);\n    wickr_free(*array);"),
# buffer.c
("buffer.c", """    if (!compare_func) {
        if (memcmp(b1->bytes, b2->bytes, b1->length) != 0) {
            return false;
        }
    }
    else if (compare_func(b1->bytes, b2->bytes, b1->length) != 0) {
        return false;
    }
    
    return true;""", """    wickr_buffer_compare_func func = compare_func ? compare_func : memcmp;
    
    return func(b1->bytes, b2->bytes, b1->length) == 0;"""),
("buffer.c", """    wickr_buffer_t *new_buffer = wickr_alloc_zero(sizeof(wickr_buffer_t));

    if (!new_buffer) {
        return NULL;
    }
    
    new_buffer->bytes = alloc_func(len);

    if (!new_buffer->bytes) {
        wickr_free(new_buffer);
        return NULL;
    }

    new_buffer->length = len;
""", """    uint8_t *bytes = alloc_func(len);

    if (!bytes) {
        return NULL;
    }
    
    wickr_buffer_t *new_buffer = wickr_alloc_zero(sizeof(wickr_buffer_t));

    if (!new_buffer) {
        wickr_free(bytes);
        return NULL;
    }
    
    new_buffer->bytes = bytes;
    new_buffer->length = len;
"""),
("buffer.c", """    if (buffer->length < start + len) {
        return false;
    }
    
    return true;""", """    return start <= buffer->length && len <= buffer->length - start;"""),
# file suite
("openssl_file_suite.c", '''    const size_t len = strlen(destination) + 6;''', '''    const size_t len = strlen(destination) + 9;'''),
("openssl_file_suite.c", '''"%s.temp"''', '''"%s.partial"'''),
("openssl_suite.c", "        unsigned char plainBuffer[4096];", "        unsigned char plainBuffer[16384];"),
("openssl_suite.c", "        unsigned char cipherBuffer[4096];", "        unsigned char cipherBuffer[1000];"),
("openssl_suite.c", "\n    unsigned char plainBuffer[4096];", "\n    unsigned char plainBuffer[333];"),
# cipher: allocation order, tag straight into place
("openssl_suite.c", """    wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
    
    /* Allocate a buffer to hold the resulting ciphertext */
    wickr_buffer_t *cipher_text = wickr_buffer_create_empty(plaintext->length + EVP_CIPHER_block_size(openssl_cipher));
    
    /* Initialize an OpenSSL cipher context */
    EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();
""", """    EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();
    wickr_buffer_t *cipher_text = wickr_buffer_create_empty_zero(plaintext->length + EVP_MAX_BLOCK_LENGTH);
    wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
"""),
("openssl_suite.c", """    /* Initialize the context with NULL to allow us to perform control operations */
    if (1 != EVP_EncryptInit_ex(ctx, openssl_cipher, NULL, NULL, NULL)) {
        goto process_error;
    }
    
    /* Re-Initialize the context with proper values to prepare for encryption */
    if (1 != EVP_EncryptInit_ex(ctx, NULL, NULL, key->key_data->bytes, iv_f->bytes)) {
        goto process_error;
    }
    
    int temp_length = 0;""", """    if (1 != EVP_EncryptInit_ex(ctx, openssl_cipher, NULL, key->key_data->bytes, iv_f->bytes)) {
        goto process_error;
    }
    
    int temp_length = 0;"""),
# stream
("stream_ctx.c", """    wickr_buffer_t *iv = wickr_stream_iv_generate(ctx->iv_factory);
    
    if (!iv) {
        return NULL;
    }
    
    wickr_stream_key_t *evolved_key = NULL;
    
    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
        wickr_buffer_destroy(&iv);
        return NULL;
    }
""", """    wickr_stream_key_t *evolved_key = NULL;
    
    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
        return NULL;
    }
    
    wickr_buffer_t *iv = wickr_stream_iv_generate(ctx->iv_factory);
    
    if (!iv) {
        wickr_stream_key_destroy(&evolved_key);
        return NULL;
    }
"""),
("stream_ctx.c", """    while (curr_evo != seq_evo) {
""", """    for (; curr_evo < seq_evo; curr_evo++) {
"""),
("stream_ctx.c", """        curr_key = new_key;
        curr_evo++;
""", """        curr_key = new_key;
"""),
# transport_ctx: receive stream first
("transport_ctx.c", """    wickr_stream_key_t *tx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_local_key(res));
    wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
    
    if (!tx_stream) {
        wickr_stream_key_destroy(&tx_key);
        wickr_transport_handshake_res_destroy(&res);
        return false;
    }
    
    wickr_stream_key_t *rx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_remote_key(res));
    wickr_stream_ctx_t *rx_stream = wickr_stream_ctx_create(ctx->engine, rx_key, STREAM_DIRECTION_DECODE);
    
    wickr_transport_handshake_res_destroy(&res);
    
    if (!rx_stream) {
        wickr_stream_ctx_destroy(&tx_stream);
        wickr_stream_key_destroy(&rx_key);
        return false;
    }
""", """    wickr_stream_key_t *rx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_remote_key(res));
    wickr_stream_key_t *tx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_local_key(res));
    wickr_transport_handshake_res_destroy(&res);
    
    wickr_stream_ctx_t *rx_stream = wickr_stream_ctx_create(ctx->engine, rx_key, STREAM_DIRECTION_DECODE);
    
    if (!rx_stream) {
        wickr_stream_key_destroy(&rx_key);
        wickr_stream_key_destroy(&tx_key);
        return false;
    }
    
    wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
    
    if (!tx_stream) {
        wickr_stream_key_destroy(&tx_key);
        wickr_stream_ctx_destroy(&rx_stream);
        return false;
    }
"""),
("transport_ctx.c", """    if (pkt->meta.mac_type != TRANSPORT_MAC_TYPE_AUTH_CIPHER) { /* Only allow authenticated ciphers */
        wickr_cipher_result_destroy(&cipher_result);
        return NULL;
    }
    
    wickr_buffer_t *aad_buffer""", """    wickr_buffer_t *aad_buffer"""),
("transport_ctx.c", """pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) {
        return NULL;""", """pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ||
        pkt->meta.mac_type != TRANSPORT_MAC_TYPE_AUTH_CIPHER) {
        return NULL;"""),
# key exchange: looked up from the back is not equivalent with duplicates; hoist the count instead
("key_exchange.c", """    for (uint32_t i = 0; i < wickr_array_get_item_count(exchange_set->exchanges); i++) {
        wickr_key_exchange_t *one_exchange = wickr_exchange_array_fetch_item(exchange_set->exchanges, i);
        if (wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
            return wickr_key_exchange_copy(one_exchange);
        }
    }
    
    return NULL;""", """    const uint32_t count = wickr_array_get_item_count(exchange_set->exchanges);
    const wickr_key_exchange_t *match = NULL;
    
    for (uint32_t i = 0; i < count && !match; i++) {
        wickr_key_exchange_t *candidate = wickr_exchange_array_fetch_item(exchange_set->exchanges, i);
        match = wickr_buffer_is_equal(candidate->exchange_id, identifier, NULL) ? candidate : NULL;
    }
    
    return wickr_key_exchange_copy(match);"""),
("key_exchange.c", """    wickr_exchange_array_t *exchanges = wickr_exchange_array_new((uint32_t)exchange_set_proto->n_exchanges);
    
    if (!exchanges) {
        return NULL;
    }
""", """    wickr_ec_key_t *pubkey = wickr_ec_key_from_protobytes(exchange_set_proto->sender_pub, engine, false);
    
    if (!pubkey) {
        return NULL;
    }
    
    wickr_exchange_array_t *exchanges = wickr_exchange_array_new((uint32_t)exchange_set_proto->n_exchanges);
    
    if (!exchanges) {
        wickr_ec_key_destroy(&pubkey);
        return NULL;
    }
"""),
("key_exchange.c", """        if (!one_exchange) {
            wickr_exchange_array_destroy(&exchanges);
            return NULL;
        }
        
        if (!wickr_exchange_array_set_item(exchanges, i, one_exchange)) {
            wickr_key_exchange_destroy(&one_exchange);
            wickr_exchange_array_destroy(&exchanges);
            return NULL;
        }
        
    }
    
    wickr_ec_key_t *pubkey = wickr_ec_key_from_protobytes(exchange_set_proto->sender_pub, engine, false);
    
    if (!pubkey) {
        wickr_exchange_array_destroy(&exchanges);
        return NULL;
    }
""", """        if (!one_exchange || !wickr_exchange_array_set_item(exchanges, i, one_exchange)) {
            wickr_key_exchange_destroy(&one_exchange);
            wickr_exchange_array_destroy(&exchanges);
            wickr_ec_key_destroy(&pubkey);
            return NULL;
        }
        
    }
"""),
# handshake: info hash built over a copy, ephemeral generated late
("transport_handshake.c", """    wickr_buffer_t *components[4];
    
    if (handshake->is_initiator) {
        components[0] = local_identity_data;
        components[1] = remote_identity_data;
        components[2] = local_ephemeral->pub_data;
        components[3] = remote_ephemeral->pub_data;
    } else {
        components[0] = remote_identity_data;
        components[1] = local_identity_data;
        components[2] = remote_ephemeral->pub_data;
        components[3] = local_ephemeral->pub_data;
    }
    
    wickr_buffer_t *info_data = wickr_buffer_concat_multi(components, 4);
""", """    const int mine = handshake->is_initiator ? 0 : 1;
    
    wickr_buffer_t *components[4];
    components[mine] = local_identity_data;
    components[1 - mine] = remote_identity_data;
    components[2 + mine] = local_ephemeral->pub_data;
    components[3 - mine] = remote_ephemeral->pub_data;
    
    wickr_buffer_t *first_half = wickr_buffer_concat(components[0], components[1]);
    wickr_buffer_t *second_half = wickr_buffer_concat(components[2], components[3]);
    wickr_buffer_t *info_data = wickr_buffer_concat(first_half, second_half);
    wickr_buffer_destroy(&first_half);
    wickr_buffer_destroy(&second_half);
"""),
# identity
("memory.c", "", None),
]
EDITS = [e for e in EDITS if e[2] is not None]
