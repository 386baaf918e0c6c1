// Complete textual dumps of every public object, and walks over every buffer they own.
#pragma once
#include "common.hpp"
#include "transport_handshake.h"
#include "transport_root_key.h"
namespace v {
#define DN(T) if (!x) return "NULL"; std::string s = T "{"
inline std::string dump(const wickr_buffer_t *x) { if (!x) return "NULL"; return fmt("%zu:", x->length) + hex(x->bytes, x->length, x->length); }
inline std::string dump(const wickr_cipher_t &c) { return fmt("c%d,%u,%u,%u,%d", (int)c.cipher_id, c.key_len, c.iv_len, c.auth_tag_len, (int)c.is_authenticated); }
inline std::string dump(const wickr_ec_curve_t &c) { return fmt("e%d,%u,%u,%u", (int)c.identifier, c.signature_size, c.raw_signature_size, c.max_pub_size); }
inline std::string dump(const wickr_digest_t &d) { return fmt("d%d,%d,%u", (int)d.type, (int)d.digest_id, d.size); }
inline std::string dump(const wickr_kdf_algo_t &a) { return fmt("k%d,%d,%u,%u,%u", (int)a.algo_id, (int)a.kdf_id, a.salt_size, a.output_size, a.cost); }
inline std::string dump(const wickr_crypto_engine_t &e)
{
    std::string s = dump(e.default_curve) + dump(e.default_cipher);
    const uint8_t *p = (const uint8_t *)&e.wickr_crypto_engine_crypto_random, *q = (const uint8_t *)(&e + 1);
    return s + fmt("f%016" PRIx64, fnv(p, q - p));
}
inline std::string dump(const wickr_cipher_result_t *x) { DN("cr"); return s + dump(x->cipher) + " iv=" + dump(x->iv) + " ct=" + dump(x->cipher_text) + " tag=" + dump(x->auth_tag) + "}"; }
inline std::string dump(const wickr_cipher_key_t *x) { DN("ck"); return s + dump(x->cipher) + " k=" + dump(x->key_data) + "}"; }
inline std::string dump(const wickr_dev_info_t *x) { DN("dev"); return s + "salt=" + dump(x->dev_salt) + " sys=" + dump(x->system_salt) + " msg=" + dump(x->msg_proto_id) + " srv=" + dump(x->srv_comm_id) + "}"; }
inline std::string dump(const wickr_ecdsa_result_t *x) { DN("sig"); return s + dump(x->curve) + dump(x->digest_mode) + dump(x->sig_data) + "}"; }
inline std::string dump(const wickr_ec_key_t *x) { DN("ec"); return s + dump(x->curve) + " pub=" + dump(x->pub_data) + " pri=" + dump(x->pri_data) + "}"; }
inline std::string dump(const wickr_ecdh_cipher_ctx_t *x) { DN("ecdh"); return s + dump(x->engine) + dump(x->cipher) + dump(x->local_key) + "}"; }
inline std::string dump(const wickr_packet_t *x) { DN("pkt"); return s + fmt("v%u ", x->version) + dump(x->content) + dump(x->signature) + "}"; }
inline std::string dump(const wickr_encoder_result_t *x) { DN("enc"); return s + dump(x->packet_key) + dump(x->packet) + "}"; }
inline std::string dump(const wickr_ephemeral_keypair_t *x) { DN("eph"); return s + fmt("%" PRIu64 " ", x->identifier) + dump(x->ec_key) + dump(x->signature) + "}"; }
inline std::string dump(const wickr_fingerprint_t *x) { DN("fp"); return s + fmt("%d ", (int)x->type) + dump(x->data) + "}"; }
inline std::string dump(const wickr_identity_t *x) { DN("id"); return s + fmt("%d ", (int)x->type) + dump(x->identifier) + dump(x->sig_key) + dump(x->signature) + "}"; }
inline std::string dump(const wickr_identity_chain_t *x) { DN("chain"); return s + fmt("%d ", (int)x->status) + dump(x->root) + dump(x->node) + "}"; }
inline std::string dump(const wickr_kdf_meta_t *x) { DN("meta"); return s + dump(x->algo) + " salt=" + dump(x->salt) + " info=" + dump(x->info) + "}"; }
inline std::string dump(const wickr_kdf_result_t *x) { DN("kdf"); return s + dump(x->meta) + dump(x->hash) + "}"; }
inline std::string dump(const wickr_key_exchange_t *x) { DN("ex"); return s + dump(x->exchange_id) + fmt(" %" PRIu64 " ", x->key_id) + dump(x->exchange_ciphertext) + "}"; }
inline std::string dump_exchanges(const wickr_array_t *x) { DN("exs"); s += fmt("%u:", wickr_array_get_item_count(x)); for (uint32_t i = 0; i < wickr_array_get_item_count(x); i++) s += dump(wickr_exchange_array_fetch_item((wickr_array_t *)x, i)); return s + "}"; }
inline std::string dump(const wickr_key_exchange_set_t *x) { DN("set"); return s + dump(x->sender_pub) + dump_exchanges(x->exchanges) + "}"; }
inline std::string dump(const wickr_node_t *x) { DN("node"); return s + dump(x->dev_id) + dump(x->id_chain) + dump(x->ephemeral_keypair) + fmt(" %d}", (int)x->status); }
inline std::string dump_nodes(const wickr_array_t *x) { DN("nodes"); s += fmt("%u:", wickr_array_get_item_count(x)); for (uint32_t i = 0; i < wickr_array_get_item_count(x); i++) s += dump(wickr_node_array_fetch_item(x, i)); return s + "}"; }
inline std::string dump(const wickr_packet_meta_t *x) { DN("pm"); return s + fmt("%" PRIu64 ",%" PRIu64 ",%u ", x->ephemerality_settings.ttl, x->ephemerality_settings.bor, x->content_type) + dump(x->channel_tag) + "}"; }
inline std::string dump(const wickr_payload_t *x) { DN("pl"); return s + dump(x->meta) + dump(x->body) + "}"; }
inline std::string dump(const wickr_parse_result_t *x) { DN("parse"); return s + fmt("%d,%d ", (int)x->err, (int)x->signature_status) + dump(x->key_exchange_set) + dump(x->key_exchange) + dump(x->enc_payload) + "}"; }
inline std::string dump(const wickr_decode_result_t *x) { DN("dec"); return s + fmt("%d ", (int)x->err) + dump(x->payload_key) + dump(x->decrypted_payload) + "}"; }
inline std::string dump(const wickr_root_keys_t *x) { DN("root"); return s + dump(x->node_signature_root) + dump(x->node_storage_root) + dump(x->remote_storage_root) + "}"; }
inline std::string dump(const wickr_storage_keys_t *x) { DN("stor"); return s + dump(x->local) + dump(x->remote) + "}"; }
inline std::string dump(const wickr_stream_key_t *x) { DN("sk"); return s + dump(x->cipher_key) + " evo=" + dump(x->evolution_key) + fmt(" ppe=%u user=", x->packets_per_evolution) + dump(x->user_data) + "}"; }
inline std::string dump(const wickr_stream_iv_t *x) { DN("iv"); return s + dump(x->engine) + dump(x->cipher) + fmt(" %" PRIu64 " ", x->gen_count) + dump(x->seed) + "}"; }
// (the number of references belongs to each handle, not to what a copy has to reproduce)
inline std::string dump(const wickr_stream_ctx_t *x) { DN("stream"); return s + dump(x->engine) + dump(x->key) + dump(x->iv_factory) + fmt(" %" PRIu64 " %d}", x->last_seq, (int)x->direction); }
inline std::string dump(const wickr_transport_packet_meta_t &m)
{
    std::string s = fmt("%d,%d,", (int)m.body_type, (int)m.mac_type);
    return s + (m.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? fmt("%u,%" PRIu64, m.body_meta.handshake.protocol_version, m.body_meta.handshake.flags) : fmt("%" PRIu64, m.body_meta.data.sequence_number));
}
inline std::string dump(const wickr_transport_packet_t *x) { DN("tp"); return s + dump(x->meta) + " net=" + dump(x->network_buffer) + " body=" + dump(x->body) + " mac=" + dump(x->mac) + "}"; }
inline std::string dump(const wickr_transport_root_key_t *x) { DN("trk"); return s + dump(x->secret) + dump(x->cipher) + fmt(" %u %u}", x->packets_per_evo_send, x->packets_per_evo_recv); }
inline std::string dump(const wickr_transport_handshake_res_t *x) { DN("hres"); return s + dump(wickr_transport_handshake_res_get_local_key(x)) + dump(wickr_transport_handshake_res_get_remote_key(x)) + "}"; }
inline std::string dump(const wickr_transport_handshake_t *x) { DN("hs"); return s + fmt("%d ", (int)wickr_transport_handshake_get_status(x)) + dump(wickr_transport_handshake_get_local_identity(x)) + dump(wickr_transport_handshake_get_remote_identity(x)) + fmt(" %p}", wickr_transport_handshake_get_user_data(x)); }
inline std::string dump(const wickr_transport_ctx_t *x) { DN("tc"); return s + fmt("%d %d ", (int)wickr_transport_ctx_get_status(x), (int)wickr_transport_ctx_get_last_error(x)) + dump(wickr_transport_ctx_get_local_identity_ptr(x)) + dump(wickr_transport_ctx_get_remote_identity_ptr(x)) + fmt(" %p}", wickr_transport_ctx_get_user_ctx(x)); }
inline std::string dump(const wickr_ctx_t *x) { DN("ctx"); return s + dump(x->engine) + dump(x->dev_info) + dump(x->id_chain) + dump(x->storage_keys) + dump(x->packet_header_key) + fmt(" v%u}", x->pkt_enc_version); }
inline std::string dump(const wickr_ctx_gen_result_t *x) { DN("gen"); return s + dump(x->ctx) + dump(x->recovery_key) + dump(x->root_keys) + "}"; }
inline std::string dump(const wickr_ctx_packet_t *x) { DN("cp"); return s + dump(x->packet) + dump(x->sender) + dump(x->parse_result) + "}"; }
#undef DN

// ------------------------------------------------------------------ every buffer an object owns
typedef std::function<void(wickr_buffer_t *)> BufFn;
inline void walk(wickr_buffer_t *x, const BufFn &f) { if (x) f(x); }
#define WK(T, ...) inline void walk(T *x, const BufFn &f) { if (!x) return; __VA_ARGS__; }
WK(wickr_cipher_result_t, walk(x->iv, f); walk(x->cipher_text, f); walk(x->auth_tag, f))
WK(wickr_cipher_key_t, walk(x->key_data, f))
WK(wickr_dev_info_t, walk(x->dev_salt, f); walk(x->system_salt, f); walk(x->msg_proto_id, f); walk(x->srv_comm_id, f))
WK(wickr_ecdsa_result_t, walk(x->sig_data, f))
WK(wickr_ec_key_t, walk(x->pub_data, f); walk(x->pri_data, f))
WK(wickr_ecdh_cipher_ctx_t, walk(x->local_key, f))
WK(wickr_packet_t, walk(x->content, f); walk(x->signature, f))
WK(wickr_encoder_result_t, walk(x->packet_key, f); walk(x->packet, f))
WK(wickr_ephemeral_keypair_t, walk(x->ec_key, f); walk(x->signature, f))
WK(wickr_fingerprint_t, walk(x->data, f))
WK(wickr_identity_t, walk(x->identifier, f); walk(x->sig_key, f); walk(x->signature, f))
WK(wickr_identity_chain_t, walk(x->root, f); walk(x->node, f))
WK(wickr_kdf_meta_t, walk(x->salt, f); walk(x->info, f))
WK(wickr_kdf_result_t, walk(x->meta, f); walk(x->hash, f))
WK(wickr_key_exchange_t, walk(x->exchange_id, f); walk(x->exchange_ciphertext, f))
inline void walk_exchanges(wickr_array_t *x, const BufFn &f) { for (uint32_t i = 0; i < wickr_array_get_item_count(x); i++) walk(wickr_exchange_array_fetch_item(x, i), f); }
WK(wickr_key_exchange_set_t, walk(x->sender_pub, f); walk_exchanges(x->exchanges, f))
WK(wickr_node_t, walk(x->dev_id, f); walk(x->id_chain, f); walk(x->ephemeral_keypair, f))
inline void walk_nodes(wickr_array_t *x, const BufFn &f) { for (uint32_t i = 0; i < wickr_array_get_item_count(x); i++) walk(wickr_node_array_fetch_item(x, i), f); }
WK(wickr_packet_meta_t, walk(x->channel_tag, f))
WK(wickr_payload_t, walk(x->meta, f); walk(x->body, f))
WK(wickr_parse_result_t, walk(x->key_exchange_set, f); walk(x->key_exchange, f); walk(x->enc_payload, f))
WK(wickr_decode_result_t, walk(x->payload_key, f); walk(x->decrypted_payload, f))
WK(wickr_root_keys_t, walk(x->node_signature_root, f); walk(x->node_storage_root, f); walk(x->remote_storage_root, f))
WK(wickr_storage_keys_t, walk(x->local, f); walk(x->remote, f))
WK(wickr_stream_key_t, walk(x->cipher_key, f); walk(x->evolution_key, f); walk(x->user_data, f))
WK(wickr_stream_iv_t, walk(x->seed, f))
WK(wickr_stream_ctx_t, walk(x->key, f); walk(x->iv_factory, f))
WK(wickr_transport_packet_t, walk(x->network_buffer, f); walk(x->body, f); walk(x->mac, f))
WK(wickr_transport_root_key_t, walk(x->secret, f))
WK(wickr_transport_handshake_res_t, walk((wickr_stream_key_t *)wickr_transport_handshake_res_get_local_key(x), f); walk((wickr_stream_key_t *)wickr_transport_handshake_res_get_remote_key(x), f))
WK(wickr_transport_handshake_t, walk((wickr_identity_chain_t *)wickr_transport_handshake_get_local_identity(x), f); walk((wickr_identity_chain_t *)wickr_transport_handshake_get_remote_identity(x), f))
WK(wickr_transport_ctx_t, walk((wickr_identity_chain_t *)wickr_transport_ctx_get_local_identity_ptr(x), f); walk((wickr_identity_chain_t *)wickr_transport_ctx_get_remote_identity_ptr(x), f))
WK(wickr_ctx_t, walk(x->dev_info, f); walk(x->id_chain, f); walk(x->storage_keys, f); walk(x->packet_header_key, f))
WK(wickr_ctx_gen_result_t, walk(x->ctx, f); walk(x->recovery_key, f); walk(x->root_keys, f))
WK(wickr_ctx_packet_t, walk(x->packet, f); walk(x->sender, f); walk(x->parse_result, f))
#undef WK
} // namespace v
