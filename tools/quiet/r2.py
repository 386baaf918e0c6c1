# Second set of behaviour-preserving edits (tools/quiet/run r2): helpers extracted or inlined, temporaries, other loop
# forms, additional allocations and wipes, steps in another order where the order can not be seen.
EDITS = [
# identity: the chain check without its cache, through a helper
("identity.c", """    /* Check to see if we need to recalculate the status of the chain. Only success is remembered, because the engine
       does not tell a wrong signature from a failure to verify it */
    if (chain->status == IDENTITY_CHAIN_STATUS_VALID && wickr_identity_chain_has_valid_cache(chain, engine)) {
        return true;
    }
    
    bool is_valid = engine->wickr_crypto_engine_ec_verify(chain->node->signature, chain->root->sig_key, chain->node->sig_key->pub_data);
    
    chain->status = is_valid ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID;
    wickr_identity_chain_update_status_cache(chain, engine);
    
    return is_valid;""",
"""    /* Always calculated again, signatures are cheap enough */
    if (__wickr_identity_vouches_for(chain->root, chain->node, engine)) {
        chain->status = IDENTITY_CHAIN_STATUS_VALID;
    } else {
        chain->status = IDENTITY_CHAIN_STATUS_INVALID;
    }
    
    wickr_identity_chain_update_status_cache(chain, engine);
    
    return chain->status == IDENTITY_CHAIN_STATUS_VALID;"""),
("identity.c", """bool wickr_identity_chain_validate(wickr_identity_chain_t *chain, const wickr_crypto_engine_t *engine)
{""", """static bool __wickr_identity_vouches_for(const wickr_identity_t *owner, const wickr_identity_t *owned, const wickr_crypto_engine_t *engine)
{
    const wickr_buffer_t *signed_data = owned->sig_key->pub_data;
    
    return engine->wickr_crypto_engine_ec_verify(owned->signature, owner->sig_key, signed_data);
}

bool wickr_identity_chain_validate(wickr_identity_chain_t *chain, const wickr_crypto_engine_t *engine)
{"""),
# identity: the copy builds the signature first, without the cache
("identity.c", """    wickr_identity_t *root_copy = wickr_identity_copy(source->root);
    
    if (!root_copy) {
        return NULL;
    }
    
    wickr_identity_t *node_copy = wickr_identity_copy(source->node);
    
    if (!node_copy) {
        wickr_identity_destroy(&root_copy);
        return NULL;
    }
    """, """    wickr_identity_t *node_copy = wickr_identity_copy(source->node);
    wickr_identity_t *root_copy = node_copy ? wickr_identity_copy(source->root) : NULL;
    
    if (!root_copy) {
        wickr_identity_destroy(&node_copy);
        return NULL;
    }
    """),
# node: the ephemeral key checked before the chain
("node.c", """    /* If the id_chain status is invalid, then return false without continuing */
    if (!wickr_identity_chain_validate(node->id_chain, engine)) {
        node->status = NODE_STATUS_INVALID;
        wickr_node_update_status_cache(node, engine);
        return false;
    }
    
    /* If the key pair ownership can't be verified by the node signature key in the id_chain, return false */
    bool has_valid_ephemeral_key = wickr_ephemeral_keypair_verify_owner(node->ephemeral_keypair, engine, node->id_chain->node);
    
    node->status = has_valid_ephemeral_key ? NODE_STATUS_VALID : NODE_STATUS_INVALID;
    wickr_node_update_status_cache(node, engine);
    
    return node->status == NODE_STATUS_VALID && node->id_chain->status == IDENTITY_CHAIN_STATUS_VALID;""",
"""    bool has_valid_ephemeral_key = wickr_ephemeral_keypair_verify_owner(node->ephemeral_keypair, engine, node->id_chain->node);
    bool has_valid_chain = wickr_identity_chain_validate(node->id_chain, engine);
    bool is_valid = has_valid_chain && has_valid_ephemeral_key;
    
    node->status = is_valid ? NODE_STATUS_VALID : NODE_STATUS_INVALID;
    wickr_node_update_status_cache(node, engine);
    
    return is_valid;"""),
# stream iv: through a local counter and a separate buffer, the digest wiped
("stream_iv.c", """    wickr_buffer_t seq_buffer = { sizeof(uint64_t), (uint8_t *)&iv->gen_count };
    wickr_buffer_t *iv_buffer = iv->engine.wickr_crypto_engine_hmac_create(&seq_buffer, iv->seed, DIGEST_SHA_512);
    
    if (!iv_buffer) {
        return NULL;
    }
    
    iv_buffer->length = iv->cipher.iv_len;
    iv->gen_count++;
    
    return iv_buffer;""",
"""    uint64_t number = iv->gen_count;
    wickr_buffer_t *number_buffer = wickr_buffer_create((const uint8_t *)&number, sizeof(number));
    
    if (!number_buffer) {
        return NULL;
    }
    
    wickr_buffer_t *digest = iv->engine.wickr_crypto_engine_hmac_create(number_buffer, iv->seed, DIGEST_SHA_512);
    wickr_buffer_destroy_zero(&number_buffer);
    wickr_buffer_t *iv_buffer = wickr_buffer_copy_section(digest, 0, iv->cipher.iv_len);
    wickr_buffer_destroy_zero(&digest);
    
    if (iv_buffer) {
        iv->gen_count = number + 1;
    }
    
    return iv_buffer;"""),
("stream_iv.c", """    wickr_buffer_destroy(&(*iv)->seed);
    wickr_free(*iv);""", """    wickr_buffer_destroy_zero(&(*iv)->seed);
    (*iv)->gen_count = 0;
    wickr_free(*iv);"""),
# stream: the iv generated after the key
("stream_ctx.c", """    wickr_buffer_t *iv = wickr_stream_iv_generate(ctx->iv_factory);
    
    if (!iv) {
        return NULL;
    }
    
    wickr_stream_key_t *evolved_key = NULL;
    
    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
        wickr_buffer_destroy(&iv);
        return NULL;
    }
    
    const wickr_stream_key_t *packet_key = evolved_key ? evolved_key : ctx->key;
    
    wickr_cipher_result_t *encrypt_result""",
"""    wickr_stream_key_t *evolved_key = NULL;
    
    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
        return NULL;
    }
    
    const wickr_stream_key_t *packet_key = ctx->key;
    
    if (evolved_key) {
        packet_key = evolved_key;
    }
    
    wickr_buffer_t *iv = wickr_stream_iv_generate(ctx->iv_factory);
    
    if (!iv) {
        wickr_stream_key_destroy(&evolved_key);
        return NULL;
    }
    
    wickr_cipher_result_t *encrypt_result"""),
# stream: the evolution splits its buffer with pointers
("stream_ctx.c", """    wickr_buffer_t *new_crypto_key = wickr_buffer_copy_section(evo_buffer, 0, DIGEST_SHA_512.size / 2);
    
    if (!new_crypto_key) {
        return NULL;
    }
    
    wickr_buffer_t *new_evo_key = wickr_buffer_copy_section(evo_buffer, DIGEST_SHA_512.size / 2, DIGEST_SHA_512.size / 2);
    
    if (!new_evo_key) {
        wickr_buffer_destroy_zero(&new_crypto_key);
        return NULL;
    }
    """, """    const size_t half = evo_buffer->length / 2;
    wickr_buffer_t *new_evo_key = wickr_buffer_create(evo_buffer->bytes + half, half);
    wickr_buffer_t *new_crypto_key = wickr_buffer_create(evo_buffer->bytes, half);
    
    if (!new_crypto_key || !new_evo_key) {
        wickr_buffer_destroy_zero(&new_evo_key);
        wickr_buffer_destroy_zero(&new_crypto_key);
        return NULL;
    }
    """),
# transport: the packets serialized before the status is looked at
("transport_ctx.c", """    wickr_transport_packet_t *tx_packet = __wickr_transport_ctx_encode_pkt(ctx, buffer);
    
    if (!tx_packet) {
        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_ENCODE_FAILED);
        return;
    }
    
    wickr_buffer_t *out_buffer = wickr_transport_packet_serialize(tx_packet);
    wickr_transport_packet_destroy(&tx_packet);
    
    if (!out_buffer) {
       __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
        return;
    }
    """, """    wickr_transport_error failure = TRANSPORT_ERROR_PACKET_ENCODE_FAILED;
    wickr_buffer_t *out_buffer = NULL;
    wickr_transport_packet_t *tx_packet = __wickr_transport_ctx_encode_pkt(ctx, buffer);
    
    if (tx_packet) {
        failure = TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED;
        out_buffer = wickr_transport_packet_serialize(tx_packet);
        wickr_transport_packet_destroy(&tx_packet);
    }
    
    if (!out_buffer) {
        __wickr_transport_ctx_set_error(ctx, failure);
        return;
    }
    """),
# transport: receive stream created first, keys fetched through locals
("transport_ctx.c", """    wickr_stream_key_t *tx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_local_key(res));
    wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
    
    if (!tx_stream) {
        wickr_stream_key_destroy(&tx_key);
        wickr_transport_handshake_res_destroy(&res);
        return false;
    }
    
    wickr_stream_key_t *rx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_remote_key(res));
    wickr_stream_ctx_t *rx_stream = wickr_stream_ctx_create(ctx->engine, rx_key, STREAM_DIRECTION_DECODE);
    
    wickr_transport_handshake_res_destroy(&res);
    
    if (!rx_stream) {
        wickr_stream_ctx_destroy(&tx_stream);
        wickr_stream_key_destroy(&rx_key);
        return false;
    }
    """, """    wickr_stream_key_t *rx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_remote_key(res));
    wickr_stream_key_t *tx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_local_key(res));
    wickr_transport_handshake_res_destroy(&res);
    
    wickr_stream_ctx_t *rx_stream = wickr_stream_ctx_create(ctx->engine, rx_key, STREAM_DIRECTION_DECODE);
    
    if (!rx_stream) {
        wickr_stream_key_destroy(&tx_key);
        wickr_stream_key_destroy(&rx_key);
        return false;
    }
    
    wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
    
    if (!tx_stream) {
        wickr_stream_key_destroy(&tx_key);
        wickr_stream_ctx_destroy(&rx_stream);
        return false;
    }
    """),
# packet: the signature is made before the old values are touched
("transport_packet.c", """    size_t mac_size = 0;
    
    switch (meta.mac_type) {
        case TRANSPORT_MAC_TYPE_EC_P521:
            mac_size = EC_CURVE_NIST_P521.signature_size;
            break;
        default:
            mac_size = 0;
    }
    
    if (buffer->length <= (start_pos + mac_size)) {
        return NULL;
    }
    """, """    const size_t mac_size = meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521 ? EC_CURVE_NIST_P521.signature_size : 0;
    const size_t outer_size = mac_size + (size_t)start_pos;
    
    if (buffer->length <= outer_size) {
        return NULL;
    }
    """),
# handshake: seed fields checked one after the other; the local ephemeral key made after the identity data
("transport_handshake.c", """    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
        || !handshake_data->seed->has_identity_required) {
        wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
        return NULL;
    }
    """, """    bool has_seed = handshake_data && handshake_data->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED && handshake_data->seed;
    bool is_complete = has_seed && handshake_data->seed->has_identity_required && handshake_data->seed->has_ephemeral_pubkey;
    
    if (!is_complete) {
        wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
        return NULL;
    }
    """),
# handshake: receiver key first
("transport_handshake.c", """    wickr_stream_key_t *sender_key = wickr_transport_root_key_to_stream_key(handshake->root_key,
                                                                            &handshake->engine,
                                                                            transcript_hash,
                                                                            &sender_info,
                                                                            STREAM_DIRECTION_ENCODE);
    
    wickr_stream_key_t *receiver_key = wickr_transport_root_key_to_stream_key(handshake->root_key,
                                                                              &handshake->engine,
                                                                              transcript_hash,
                                                                              &receiver_info,
                                                                              STREAM_DIRECTION_DECODE);
    """, """    wickr_stream_key_t *receiver_key = wickr_transport_root_key_to_stream_key(handshake->root_key,
                                                                              &handshake->engine,
                                                                              transcript_hash,
                                                                              &receiver_info,
                                                                              STREAM_DIRECTION_DECODE);
    
    wickr_stream_key_t *sender_key = NULL;
    
    if (receiver_key) {
        sender_key = wickr_transport_root_key_to_stream_key(handshake->root_key,
                                                            &handshake->engine,
                                                            transcript_hash,
                                                            &sender_info,
                                                            STREAM_DIRECTION_ENCODE);
    }
    """),
# handshake: the root key and ephemeral key are dropped as soon as they are used
("transport_handshake.c", """    handshake->status = TRANSPORT_HANDSHAKE_STATUS_COMPLETE;
    
    return result;""", """    handshake->status = TRANSPORT_HANDSHAKE_STATUS_COMPLETE;
    wickr_transport_root_key_destroy(&handshake->root_key);
    wickr_ec_key_destroy(&handshake->local_ephemeral_key);
    
    return result;"""),
# key exchange: found with a different loop; parsed through a helper for the identifier
("key_exchange.c", """    for (uint32_t i = 0; i < wickr_array_get_item_count(exchange_set->exchanges); i++) {
        wickr_key_exchange_t *one_exchange = wickr_exchange_array_fetch_item(exchange_set->exchanges, i);
        if (wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
            return wickr_key_exchange_copy(one_exchange);
        }
    }
    
    return NULL;""", """    const wickr_key_exchange_t *found = NULL;
    uint32_t remaining = wickr_array_get_item_count(exchange_set->exchanges);
    
    /* The first of several wins */
    while (remaining > 0) {
        remaining--;
        const wickr_key_exchange_t *one_exchange = wickr_exchange_array_fetch_item(exchange_set->exchanges, remaining);
        
        if (one_exchange->exchange_id->length == identifier->length &&
            wickr_buffer_is_equal(one_exchange->exchange_id, identifier, NULL)) {
            found = one_exchange;
        }
    }
    
    return wickr_key_exchange_copy(found);"""),
# fingerprint: order decided with memcmp
("fingerprint.c", """    wickr_buffer_t *concat_buffer = NULL;
    
    /* Order the input fingerprints in a consistent way so that outputs are consistent
       regardless of input order */
    for (unsigned i = 0; i < f1->data->length; i++) {
        
        if (f1->data->bytes[i] == f2->data->bytes[i]) {
            continue;
        }
        
        if (f1->data->bytes[i] > f2->data->bytes[i]) {
            concat_buffer = wickr_buffer_concat(f1->data, f2->data);
            break;
        }
        else {
            concat_buffer = wickr_buffer_concat(f2->data, f1->data);
            break;
        }
        
    }
    
    if (!concat_buffer) {
        return NULL;
    }
    """, """    /* The larger one comes first on both sides */
    int order = memcmp(f1->data->bytes, f2->data->bytes, f1->data->length);
    
    if (order == 0) {
        return NULL;
    }
    
    wickr_buffer_t *concat_buffer = order > 0 ? wickr_buffer_concat(f1->data, f2->data) : wickr_buffer_concat(f2->data, f1->data);
    
    if (!concat_buffer) {
        return NULL;
    }
    """),
("fingerprint.c", """#include "b32.h"
""", """#include "b32.h"
#include <string.h>
"""),
# kdf: the passphrase copied by hand, the salt wiped, the meta built on the heap
("kdf.c", """    wickr_kdf_meta_t meta;
    meta.algo = algo;
    meta.salt = salt;
    meta.info = NULL;
    
    wickr_kdf_result_t *result = wickr_perform_kdf_meta(&meta, passphrase);
    wickr_buffer_destroy(&salt);
    
    return result;""", """    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(algo, salt, NULL);
    
    if (!meta) {
        wickr_buffer_destroy_zero(&salt);
        return NULL;
    }
    
    wickr_kdf_result_t *result = wickr_perform_kdf_meta(meta, passphrase);
    wickr_kdf_meta_destroy(&meta);
    
    return result;"""),
# util: hex by table of pairs; base64 decoding table lookup through a helper
("util.c", """        for(i=0; i<objData->length; i++) {
            retval->bytes[i*2] = nibbleToChar(objData->bytes[i] >> 4);
            retval->bytes[i*2+1] = nibbleToChar(objData->bytes[i] & 0x0f);
        }
        retval->bytes[i*2] = '\\0';
""", """        uint8_t *out = retval->bytes;
        for(i=0; i<objData->length; i++) {
            *out++ = byteMap[objData->bytes[i] / 16];
            *out++ = byteMap[objData->bytes[i] % 16];
        }
        *out = '\\0';
"""),
# buffer: concat through concat_multi
("buffer.c", """    if (buffer1->length > MAX_BUFFER_SIZE || buffer2->length > MAX_BUFFER_SIZE) {
        return NULL;
    }
    
    if ((MAX_BUFFER_SIZE - buffer1->length) < buffer2->length) {
        return NULL;
    }
    
    wickr_buffer_t *new_buffer = wickr_buffer_create_empty(buffer1->length + buffer2->length);
    
    if (!new_buffer) {
        return NULL;
    }
    
    memcpy(new_buffer->bytes, buffer1->bytes, buffer1->length);
    memcpy(new_buffer->bytes + buffer1->length, buffer2->bytes, buffer2->length);
    
    return new_buffer;""", """    wickr_buffer_t *both[2];
    both[0] = (wickr_buffer_t *)buffer1;
    both[1] = (wickr_buffer_t *)buffer2;
    
    return wickr_buffer_concat_multi(both, 2);"""),
# ecdsa: pad buffer on the stack
("ecdsa.c", """    wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
    
    if (!pad_buffer && pad_count > 0) {
        return NULL;
    }

    wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
    
    wickr_buffer_t *fullbuff = wickr_buffer_concat_multi(buffers, BUFFER_ARRAY_LEN(buffers));
    
    wickr_buffer_destroy(&pad_buffer);
    return fullbuff;""", """    uint8_t zeroes[UINT8_MAX] = { 0 };
    wickr_buffer_t pad_buffer = { pad_count, zeroes };

    wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, &pad_buffer, result->sig_data };
    
    return wickr_buffer_concat_multi(buffers, BUFFER_ARRAY_LEN(buffers));"""),
# ecdh: derived key kept in the result until the key exists
("ecdh_cipher_ctx.c", """    wickr_buffer_t *key_data = wickr_buffer_copy(kdf_result->hash);
    wickr_kdf_result_destroy(&kdf_result);
    wickr_buffer_destroy_zero(&shared_secret);
    """, """    wickr_buffer_destroy_zero(&shared_secret);
    wickr_buffer_t *key_data = kdf_result->hash;
    kdf_result->hash = NULL;
    wickr_kdf_result_destroy(&kdf_result);
    """),
]
