# Third set of behaviour-preserving edits (tools/quiet/run r3): orders of allocation and of provider calls that nobody can
# see, buffers filled by hand, single exits, other OpenSSL entry points for the same function.
EDITS = [
("payload.c", """    wickr_packet_meta_t *meta_copy = wickr_packet_meta_copy(source->meta);
    
    if (!meta_copy) {
        return NULL;
    }
    
    wickr_buffer_t *body_copy = wickr_buffer_copy(source->body);
    
    if (!body_copy) {
        wickr_packet_meta_destroy(&meta_copy);
        return NULL;
    }
    
    wickr_payload_t *copy = wickr_payload_create(meta_copy, body_copy);
""", """    wickr_buffer_t *body_copy = wickr_buffer_copy(source->body);
    wickr_packet_meta_t *meta_copy = wickr_packet_meta_copy(source->meta);
    
    /* refuses what is missing */
    wickr_payload_t *copy = wickr_payload_create(meta_copy, body_copy);
"""),
("root_keys.c", """    wickr_cipher_key_t *new_node_storage_root = engine->wickr_crypto_engine_cipher_key_random(engine->default_cipher);
    
    if (!new_node_storage_root) {
        return NULL;
    }
    
    wickr_cipher_key_t *new_remote_storage_root = engine->wickr_crypto_engine_cipher_key_random(engine->default_cipher);
    
    if (!new_remote_storage_root) {
        wickr_cipher_key_destroy(&new_node_storage_root);
        return NULL;
    }
    
    wickr_ec_key_t *new_signature_root = engine->wickr_crypto_engine_ec_rand_key(engine->default_curve);
    
    if (!new_node_storage_root) {
        wickr_cipher_key_destroy(&new_node_storage_root);
        wickr_cipher_key_destroy(&new_remote_storage_root);
        return NULL;
    }
""", """    wickr_ec_key_t *new_signature_root = engine->wickr_crypto_engine_ec_rand_key(engine->default_curve);
    
    if (!new_signature_root) {
        return NULL;
    }
    
    wickr_cipher_key_t *new_remote_storage_root = engine->wickr_crypto_engine_cipher_key_random(engine->default_cipher);
    wickr_cipher_key_t *new_node_storage_root = new_remote_storage_root ? engine->wickr_crypto_engine_cipher_key_random(engine->default_cipher) : NULL;
"""),
("stream_key.c", """    wickr_cipher_key_t *cipher_key = engine.wickr_crypto_engine_cipher_key_random(cipher);
    
    if (!cipher_key) {
        return NULL;
    }
    
    wickr_buffer_t *evo_key = engine.wickr_crypto_engine_crypto_random(cipher.key_len);
    
    if (!evo_key) {
        wickr_cipher_key_destroy(&cipher_key);
        return NULL;
    }
""", """    wickr_buffer_t *evo_key = engine.wickr_crypto_engine_crypto_random(cipher.key_len);
    
    if (!evo_key) {
        return NULL;
    }
    
    wickr_cipher_key_t *cipher_key = engine.wickr_crypto_engine_cipher_key_random(cipher);
    
    if (!cipher_key) {
        wickr_buffer_destroy_zero(&evo_key);
        return NULL;
    }
"""),
("cipher.c", """    uint8_t mode_int = (uint8_t)result->cipher.cipher_id;
    wickr_buffer_t mode_buffer = { sizeof(uint8_t), &mode_int };
    
    if (!result->cipher.is_authenticated) {
        wickr_buffer_t *components[] = { &mode_buffer, result->iv, result->cipher_text };
        return wickr_buffer_concat_multi(components, BUFFER_ARRAY_LEN(components));
    }
    
    wickr_buffer_t *components[] = { &mode_buffer, result->iv, result->auth_tag, result->cipher_text };
    return wickr_buffer_concat_multi(components, BUFFER_ARRAY_LEN(components));
""", """    size_t text_len = result->cipher_text ? result->cipher_text->length : 0;
    size_t tag_len = result->cipher.is_authenticated ? result->auth_tag->length : 0;
    wickr_buffer_t *out = wickr_buffer_create_empty(1 + result->iv->length + tag_len + text_len);
    
    if (!out) {
        return NULL;
    }
    
    uint8_t *to = out->bytes;
    *to++ = (uint8_t)result->cipher.cipher_id;
    memcpy(to, result->iv->bytes, result->iv->length);
    to += result->iv->length;
    if (tag_len) {
        memcpy(to, result->auth_tag->bytes, tag_len);
        to += tag_len;
    }
    if (text_len) {
        memcpy(to, result->cipher_text->bytes, text_len);
    }
    return out;
"""),
("devinfo.c", """    /* Convert the system_id into a salt by taking its hash, this value remains private to the client */
    wickr_buffer_t *system_salt = crypto->wickr_crypto_engine_digest(system_id, NULL, DIGEST_SHA_256);
    
    if (!system_salt) {
        return NULL;
    }
    
    /* Use SHA 512 as our digest algorithm so we can get enough bytes to create both a msg_proto_id and a srv_comm_id */
    wickr_digest_t id_gen_digest = DIGEST_SHA_512;
    
    /* Generate an hash of system_id and salt value to make a publishable set of device identifiers */
    wickr_buffer_t *dev_id_data = crypto->wickr_crypto_engine_digest(system_id, dev_salt, id_gen_digest);
    
    if (!dev_id_data) {
        wickr_buffer_destroy(&system_salt);
        return NULL;
    }
""", """    /* Use SHA 512 as our digest algorithm so we can get enough bytes to create both a msg_proto_id and a srv_comm_id */
    wickr_digest_t id_gen_digest = DIGEST_SHA_512;
    
    /* Generate an hash of system_id and salt value to make a publishable set of device identifiers */
    wickr_buffer_t *dev_id_data = crypto->wickr_crypto_engine_digest(system_id, dev_salt, id_gen_digest);
    
    if (!dev_id_data) {
        return NULL;
    }
    
    /* Convert the system_id into a salt by taking its hash, this value remains private to the client */
    wickr_buffer_t *system_salt = crypto->wickr_crypto_engine_digest(system_id, NULL, DIGEST_SHA_256);
    
    if (!system_salt) {
        wickr_buffer_destroy(&dev_id_data);
        return NULL;
    }
"""),
("wickr_ctx.c", """    
    wickr_ec_key_t *sig_key_copy = wickr_ec_key_copy(root_keys->node_signature_root);
    
    if (!sig_key_copy) {
        return NULL;
    }
    
    wickr_buffer_t *identifier_copy = wickr_buffer_copy(identifier);

    if (!identifier_copy) {
        wickr_ec_key_destroy(&sig_key_copy);
        return NULL;
    }
    
    wickr_identity_t *root_identity = wickr_identity_create(IDENTITY_TYPE_ROOT, identifier_copy, sig_key_copy, NULL);
""", """    
    wickr_buffer_t *identifier_copy = wickr_buffer_copy(identifier);
    wickr_ec_key_t *sig_key_copy = wickr_ec_key_copy(root_keys->node_signature_root);
    
    if (!identifier_copy || !sig_key_copy) {
        wickr_buffer_destroy(&identifier_copy);
        wickr_ec_key_destroy(&sig_key_copy);
        return NULL;
    }
    
    wickr_identity_t *root_identity = wickr_identity_create(IDENTITY_TYPE_ROOT, identifier_copy, sig_key_copy, NULL);
"""),
("wickr_ctx.c", """    /* Generate a random key to encode the payload for this packet */
    wickr_cipher_key_t *rnd_payload_key = ctx->engine.wickr_crypto_engine_cipher_key_random(ctx->engine.default_cipher);
    
    if (!rnd_payload_key) {
        return NULL;
    }
    
    /* Generate a random ec key pair to use for the key exchanges for this packet */
    wickr_ec_key_t *rnd_exchange_key = ctx->engine.wickr_crypto_engine_ec_rand_key(ctx->engine.default_curve);
    
    if (!rnd_exchange_key) {
        wickr_cipher_key_destroy(&rnd_payload_key);
        return NULL;
    }
""", """    const wickr_crypto_engine_t *engine = &ctx->engine;
    
    /* Generate a random ec key pair to use for the key exchanges for this packet */
    wickr_ec_key_t *rnd_exchange_key = engine->wickr_crypto_engine_ec_rand_key(engine->default_curve);
    
    if (!rnd_exchange_key) {
        return NULL;
    }
    
    /* Generate a random key to encode the payload for this packet */
    wickr_cipher_key_t *rnd_payload_key = engine->wickr_crypto_engine_cipher_key_random(engine->default_cipher);
    
    if (!rnd_payload_key) {
        wickr_ec_key_destroy(&rnd_exchange_key);
        return NULL;
    }
"""),
("openssl_suite.c", """    /* If an IV is not passed in, generate a random one */
    wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
    
    /* Allocate a buffer to hold the resulting ciphertext */
    wickr_buffer_t *cipher_text = wickr_buffer_create_empty(plaintext->length + EVP_CIPHER_block_size(openssl_cipher));
    
    /* Initialize an OpenSSL cipher context */
    EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();
""", """    /* Initialize an OpenSSL cipher context */
    EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();
    
    /* Allocate a buffer to hold the resulting ciphertext */
    wickr_buffer_t *cipher_text = wickr_buffer_create_empty_zero(plaintext->length + 2 * EVP_CIPHER_block_size(openssl_cipher));
    
    /* If an IV is not passed in, generate a random one */
    wickr_buffer_t *iv_f = NULL;
    
    if (iv) {
        iv_f = wickr_buffer_copy(iv);
    } else {
        iv_f = openssl_crypto_random(cipher.iv_len);
    }
"""),
("openssl_suite.c", """    /* Perform the digest */
    if (1 != EVP_DigestUpdate(c, buffer->bytes, buffer->length)) {
        EVP_MD_CTX_destroy(c);
        return NULL;
    }
    
    /* If a salt has been requested, it is added into the digest */
    if (salt) {
        if (1 != EVP_DigestUpdate(c, salt->bytes, salt->length)) {
            EVP_MD_CTX_destroy(c);
            return NULL;
        }
    }
    
    wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
    
    if (!hash_result) {
        EVP_MD_CTX_destroy(c);
        return NULL;
    }
    
    if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
        wickr_buffer_destroy(&hash_result);
        EVP_MD_CTX_destroy(c);
        return NULL;
    }
    
    EVP_MD_CTX_destroy(c);
    
    return hash_result;
}
""", """    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned int md_len = 0;
    const wickr_buffer_t *parts[] = { buffer, salt };
    bool ok = true;
    
    /* Perform the digest; if a salt has been requested, it is added at the end */
    for (int i = 0; ok && i < 2; i++) {
        ok = !parts[i] || 1 == EVP_DigestUpdate(c, parts[i]->bytes, parts[i]->length);
    }
    
    ok = ok && 1 == EVP_DigestFinal_ex(c, md, &md_len) && md_len == mode.size;
    EVP_MD_CTX_destroy(c);
    
    wickr_buffer_t *hash_result = ok ? wickr_buffer_create(md, md_len) : NULL;
    OPENSSL_cleanse(md, sizeof(md));
    
    return hash_result;
}
"""),
("openssl_suite.c", """    unsigned char plainBuffer[4096];
    
    wickr_buffer_t *hash_result""", """    unsigned char plainBuffer[16384];
    
    wickr_buffer_t *hash_result"""),
("transport_handshake_priv.c", """    wickr__proto__handshake_v1__seed__init(seed);
    seed->id_chain = wickr_identity_chain_to_proto(id_chain);
    seed->has_ephemeral_pubkey = true;
    seed->has_identity_required = true;
    seed->identity_required = needs_remote_identity;
    
    if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
        wickr_proto_handshake_seed_free(seed);
        return NULL;
    }
    
    if (!seed->id_chain) {
        wickr_proto_handshake_seed_free(seed);
        return NULL;
    }
    
    return seed;
""", """    wickr__proto__handshake_v1__seed__init(seed);
    seed->has_identity_required = true;
    seed->identity_required = needs_remote_identity;
    seed->has_ephemeral_pubkey = wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key);
    
    if (seed->has_ephemeral_pubkey) {
        seed->id_chain = wickr_identity_chain_to_proto(id_chain);
    }
    
    if (!seed->id_chain) {
        wickr_proto_handshake_seed_free(seed);
        seed = NULL;
    }
    
    return seed;
"""),
("array.c", """    void *one_item = __wickr_array_pointer_to_index(array, index);
    
    if (one_item && copy) {
        array->item_destroy_func(&one_item);
    }
    
	uintptr_t ptr_to_write = (uintptr_t)item_to_write;
    return wickr_buffer_modify_section(array->item_store, (uint8_t *)&ptr_to_write, index * sizeof(uintptr_t), sizeof(uintptr_t));
""", """    void *previous = __wickr_array_pointer_to_index(array, index);
    uintptr_t ptr_to_write = (uintptr_t)item_to_write;
    
    memcpy(array->item_store->bytes + (size_t)index * sizeof(uintptr_t), &ptr_to_write, sizeof(uintptr_t));
    
    if (previous && copy) {
        array->item_destroy_func(&previous);
    }
    
    return true;
"""),
("transport_ctx.c", """    wickr_transport_packet_t *tx_packet = __wickr_transport_ctx_encode_pkt(ctx, buffer);
    
    if (!tx_packet) {
        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_ENCODE_FAILED);
        return;
    }
    
    wickr_buffer_t *out_buffer = wickr_transport_packet_serialize(tx_packet);
    wickr_transport_packet_destroy(&tx_packet);
    
    if (!out_buffer) {
       __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
        return;
    }
    
    /* Execute the callback to provide the buffer to the user */
    ctx->callbacks.tx(ctx, out_buffer);
""", """    wickr_transport_error failure = TRANSPORT_ERROR_PACKET_ENCODE_FAILED;
    wickr_buffer_t *out_buffer = NULL;
    wickr_transport_packet_t *tx_packet = __wickr_transport_ctx_encode_pkt(ctx, buffer);
    
    if (tx_packet) {
        failure = TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED;
        out_buffer = wickr_transport_packet_serialize(tx_packet);
        wickr_transport_packet_destroy(&tx_packet);
    }
    
    if (out_buffer) {
        /* Execute the callback to provide the buffer to the user */
        ctx->callbacks.tx(ctx, out_buffer);
        return;
    }
    
    __wickr_transport_ctx_set_error(ctx, failure);
"""),
("cipher.c", '#include "memory.h"', '#include "memory.h"\n#include <string.h>'),
("array.c", '#include "memory.h"', '#include "memory.h"\n#include <string.h>'),
]
