// Random objects of every public type, with what the library offers on each type. Include after W (a World) and E are
// declared, in exactly one translation unit of a harness; call kinds() once.
#pragma once
#include "dump.hpp"
#include "scen.hpp"
namespace v {
// ------------------------------------------------------------------ random objects, with any of their optional parts
static wickr_buffer_t *buf(Rng &r) { static const size_t n[] = { 1, 2, 5, 12, 16, 22, 31, 32, 33, 48, 64, 66, 127, 128, 133, 134, 200 }; return mkp(r.bytes(r.chance(2, 3) ? n[r.below(sizeof n / sizeof *n)] : r.range(1, 300))); }
static wickr_buffer_t *bufn(Rng &r, size_t n) { return mkp(r.bytes(n)); }
template <class F> static auto opt(Rng &r, F f) -> decltype(f()) { return r.chance(1, 2) ? f() : nullptr; }
static wickr_cipher_t ciph(Rng &r) { return r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; }
static wickr_digest_t dig(Rng &r) { return r.pick({ DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 }); }
static wickr_cipher_result_t *cres(Rng &r) { auto c = ciph(r); return wickr_cipher_result_create(c, bufn(r, c.iv_len), opt(r, [&] { return buf(r); }), c.is_authenticated ? bufn(r, c.auth_tag_len) : NULL); }
static wickr_cipher_key_t *ckey(Rng &r) { return wickr_cipher_key_create(ciph(r), bufn(r, 32)); }
static wickr_dev_info_t *devi(Rng &r) { return wickr_dev_info_create(buf(r), opt(r, [&] { return buf(r); }), buf(r), buf(r)); }
static wickr_ecdsa_result_t *sig(Rng &r) { return wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dig(r), buf(r)); }
static wickr_ec_key_t *eck(Rng &r) { return wickr_ec_key_create(EC_CURVE_NIST_P521, buf(r), opt(r, [&] { return buf(r); })); }
static wickr_packet_t *pkt(Rng &r) { return wickr_packet_create((uint8_t)r.below(256), buf(r), sig(r)); }
static wickr_encoder_result_t *encr(Rng &r) { return wickr_encoder_result_create(ckey(r), pkt(r)); }
static wickr_ephemeral_keypair_t *eph(Rng &r) { return wickr_ephemeral_keypair_create(gen_u64(r), eck(r), opt(r, [&] { return sig(r); })); }
static wickr_fingerprint_t *fpr(Rng &r) { return wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, buf(r)); }
static wickr_identity_t *idn(Rng &r) { return wickr_identity_create(r.chance(1, 2) ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE, bufn(r, r.range(1, 127)), eck(r), opt(r, [&] { return sig(r); })); }
static wickr_identity_chain_t *chn(Rng &r) { auto c = wickr_identity_chain_create(idn(r), idn(r)); if (r.chance(1, 2)) wickr_identity_chain_validate(c, &E); return c; }
static wickr_kdf_meta_t *kmeta(Rng &r)
{
    auto a = r.pick({ KDF_SCRYPT_2_17, KDF_SCRYPT_2_20, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512 });
    if (a.algo_id != KDF_HMAC_SHA2) return wickr_kdf_meta_create(a, bufn(r, a.salt_size), opt(r, [&] { return buf(r); }));
    if (r.chance(1, 3)) return wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, buf(r), r.range(1, 255));
    bool s = r.chance(1, 2);
    return wickr_kdf_meta_create(a, s ? buf(r) : NULL, !s || r.chance(1, 2) ? buf(r) : NULL);
}
static wickr_kdf_result_t *kres(Rng &r) { return wickr_kdf_result_create(kmeta(r), buf(r)); }
static wickr_key_exchange_t *exch(Rng &r) { return wickr_key_exchange_create(buf(r), gen_u64(r), cres(r)); }
static wickr_array_t *exarr(Rng &r)
{
    size_t n = r.range(1, 5);
    auto a = wickr_exchange_array_new((uint32_t)n);
    bool holes = r.chance(1, 4);
    for (size_t i = 0; i < n; i++) if (!holes || r.chance(2, 3)) wickr_exchange_array_set_item(a, (uint32_t)i, exch(r));
    return a;
}
static wickr_key_exchange_set_t *exset(Rng &r) { return wickr_key_exchange_set_create(eck(r), exarr(r)); }
static wickr_node_t *nod(Rng &r) { auto n = wickr_node_create(buf(r), chn(r), opt(r, [&] { return eph(r); })); if (r.chance(1, 3)) wickr_node_verify_signature_chain(n, &E); return n; }
static wickr_array_t *nodarr(Rng &r)
{
    size_t n = r.range(0, 4);
    auto a = wickr_node_array_new((uint32_t)n);
    bool holes = r.chance(1, 4);
    for (size_t i = 0; i < n; i++) if (!holes || r.chance(2, 3)) wickr_node_array_set_item(a, (uint32_t)i, nod(r));
    return a;
}
static wickr_packet_meta_t *pmeta(Rng &r) { wickr_ephemeral_info_t e = { gen_u64(r), gen_u64(r) }; return wickr_packet_meta_create(e, buf(r), (uint16_t)r.u64()); }
static wickr_payload_t *payl(Rng &r) { return wickr_payload_create(pmeta(r), buf(r)); }
static wickr_parse_result_t *pres(Rng &r)
{
    if (r.chance(1, 3)) return wickr_parse_result_create_failure(r.pick({ PACKET_SIGNATURE_UNKNOWN, PACKET_SIGNATURE_VALID, PACKET_SIGNATURE_INVALID }), r.pick({ ERROR_INVALID_INPUT, ERROR_NODE_NOT_FOUND, ERROR_CORRUPT_PACKET, ERROR_KEY_EXCHANGE_FAILED, ERROR_MAC_INVALID }));
    return wickr_parse_result_create_success(exset(r), opt(r, [&] { return exch(r); }), cres(r));
}
static wickr_decode_result_t *dres(Rng &r)
{
    if (r.chance(1, 3)) return wickr_decode_result_create_failure(r.pick({ ERROR_INVALID_INPUT, ERROR_NODE_NOT_FOUND, ERROR_CORRUPT_PACKET, ERROR_KEY_EXCHANGE_FAILED, ERROR_MAC_INVALID }));
    return wickr_decode_result_create_success(payl(r), ckey(r));
}
static wickr_root_keys_t *rkeys(Rng &r) { return wickr_root_keys_create(eck(r), ckey(r), ckey(r)); }
static wickr_storage_keys_t *skeys(Rng &r) { return wickr_storage_keys_create(ckey(r), ckey(r)); }
static wickr_stream_key_t *strk(Rng &r, wickr_cipher_t c = CIPHER_AES256_GCM)
{
    auto k = wickr_cipher_key_create(c, bufn(r, 32));
    uint32_t n = (uint32_t)r.pick({ 1, 2, 512, 32768 });
    return r.chance(1, 2) ? wickr_stream_key_create(k, bufn(r, 32), n) : wickr_stream_key_create_user_data(k, bufn(r, 64), n, opt(r, [&] { return buf(r); }));
}
static wickr_stream_iv_t *siv(Rng &r) { auto x = wickr_stream_iv_create(E, CIPHER_AES256_GCM); for (size_t n = r.below(4); n--;) { auto b = wickr_stream_iv_generate(x); wickr_buffer_destroy(&b); } return x; }
static wickr_stream_ctx_t *strm(Rng &r)
{
    auto x = wickr_stream_ctx_create(E, strk(r), r.chance(1, 2) ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE);
    if (x->direction == STREAM_DIRECTION_ENCODE) for (uint64_t i = 1, n = r.below(4); i <= n; i++) { View d(r.bytes(20)); auto c = wickr_stream_ctx_encode(x, d, NULL, i); wickr_cipher_result_destroy(&c); }
    return x;
}
static wickr_transport_packet_t *tpkt(Rng &r)
{
    wickr_transport_packet_meta_t m;
    memset(&m, 0, sizeof m);
    if (r.chance(1, 2)) wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521);
    else wickr_transport_packet_meta_initialize_data(&m, r.range(1, 1ull << 62), TRANSPORT_MAC_TYPE_AUTH_CIPHER);
    auto p = wickr_transport_packet_create(m, buf(r));
    if (p && m.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && r.chance(2, 3)) wickr_transport_packet_sign(p, &E, W[r.below(W.size())].dev.chain());
    if (p && r.chance(1, 2)) {
        auto s = wickr_transport_packet_serialize(p);
        if (s) { auto q = wickr_transport_packet_create_from_buffer(s); wickr_buffer_destroy(&s); if (q) { wickr_transport_packet_destroy(&p); p = q; } }
    }
    return p;
}
static wickr_transport_root_key_t *trk(Rng &r) { return wickr_transport_root_key_create(bufn(r, 32), ciph(r), (uint32_t)r.u64(), (uint32_t)r.u64()); }
static wickr_transport_handshake_res_t *hres(Rng &r) { return wickr_transport_handshake_res_create(strk(r), strk(r)); }
static void k_ident(const wickr_transport_handshake_t *, wickr_identity_chain_t *c, void *) { wickr_identity_chain_destroy(&c); }
static wickr_transport_handshake_t *hsk(Rng &r)
{
    auto &a = W[r.below(W.size())], &b = W[r.below(W.size())];
    auto x = wickr_transport_handshake_create(E, wickr_identity_chain_copy(a.dev.chain()), opt(r, [&] { return wickr_identity_chain_copy(b.pub.get()); }), k_ident, (uint32_t)r.range(1, 100), (void *)&W);
    if (r.chance(1, 4)) { auto p = wickr_transport_handshake_start(x); wickr_transport_packet_destroy(&p); }
    return x;
}
static void t_take(const wickr_transport_ctx_t *, wickr_buffer_t *b) { wickr_buffer_destroy(&b); }
static void t_state(const wickr_transport_ctx_t *, wickr_transport_status) {}
static void t_ident(const wickr_transport_ctx_t *, wickr_identity_chain_t *c, wickr_transport_validate_identity_callback) { wickr_identity_chain_destroy(&c); }
static wickr_transport_callbacks_t t_cb() { wickr_transport_callbacks_t c; c.tx = t_take; c.rx = t_take; c.on_state = t_state; c.on_identity_verify = t_ident; return c; }
static wickr_transport_ctx_t *tctx(Rng &r)
{
    auto &a = W[r.below(W.size())], &b = W[r.below(W.size())];
    auto x = wickr_transport_ctx_create(E, wickr_identity_chain_copy(a.dev.chain()), opt(r, [&] { return wickr_identity_chain_copy(b.pub.get()); }), (uint32_t)r.below(100), t_cb(), (void *)&W);
    if (r.chance(1, 4)) wickr_transport_ctx_start(x);
    if (r.chance(1, 4)) { View g(r.bytes(20)); wickr_transport_ctx_process_rx_buffer(x, g); }
    return x;
}
static wickr_ctx_t *wctx(Rng &r) { auto d = devi(r); auto x = wickr_ctx_create(E, d, chn(r), skeys(r)); if (x) x->pkt_enc_version = (uint8_t)r.range(2, 4); return x; }
static wickr_ctx_gen_result_t *genr(Rng &r) { auto g = wickr_ctx_gen_result_copy(W[r.below(W.size())].dev.gen.get()); if (g) g->ctx->pkt_enc_version = (uint8_t)r.range(2, 4); return g; }
static wickr_ecdh_cipher_ctx_t *ecdh(Rng &r) { return wickr_ecdh_cipher_ctx_create_key(E, eck(r), ciph(r)); }
static wickr_ctx_packet_t *cpkt(Rng &r) { return wickr_ctx_packet_create(pkt(r), chn(r), pres(r)); }

// ------------------------------------------------------------------ kinds
struct Kind {
    const char *name;
    std::function<void *(Rng &)> make;
    std::function<void *(const void *)> copy;
    std::function<void(void **)> destroy;
    std::function<std::string(const void *)> dmp;
    std::function<void(void *, const BufFn &)> wlk;
    std::function<std::string(const void *)> use;      // reading operations
};
static std::vector<Kind> K;
static std::map<std::string, int> KI;
static std::string ub(wickr_buffer_t *b) { auto s = dump(b); wickr_buffer_destroy(&b); return s; }
#define KIND(T, MAKE, ...) do { Kind k; k.name = #T; k.make = [](Rng &r) { return (void *)MAKE(r); }; k.copy = [](const void *p) { return (void *)wickr_##T##_copy((const wickr_##T##_t *)p); }; \
    k.destroy = [](void **p) { wickr_##T##_destroy((wickr_##T##_t **)p); }; k.dmp = [](const void *p) { return dump((const wickr_##T##_t *)p); }; k.wlk = [](void *p, const BufFn &f) { walk((wickr_##T##_t *)p, f); }; \
    k.use = [](const void *p) -> std::string { auto *x = (const wickr_##T##_t *)p; (void)x; return __VA_ARGS__; }; KI[k.name] = (int)K.size(); K.push_back(k); } while (0)
static std::string none() { return ""; }
static void kinds()
{
    KIND(buffer, buf, ub(wickr_buffer_copy_section(x, 0, x->length)));
    KIND(cipher_result, cres, ub(wickr_cipher_result_serialize(x)) + fmt("%d", wickr_cipher_result_is_valid(x)));
    KIND(cipher_key, ckey, ub(wickr_cipher_key_serialize(x)));
    KIND(dev_info, devi, none());
    KIND(ecdsa_result, sig, ub(wickr_ecdsa_result_serialize(x)));
    KIND(ec_key, eck, none());
    KIND(ecdh_cipher_ctx, ecdh, none());
    KIND(packet, pkt, ub(wickr_packet_serialize(x)));
    KIND(encoder_result, encr, none());
    KIND(ephemeral_keypair, eph, x->signature ? ub(wickr_ephemeral_keypair_serialize(x)) : none());
    KIND(fingerprint, fpr, none());
    KIND(identity, idn, ub(wickr_identity_serialize(x)));
    KIND(identity_chain, chn, ub(wickr_identity_chain_serialize(x)));
    KIND(kdf_meta, kmeta, none());
    KIND(kdf_result, kres, none());
    KIND(key_exchange, exch, none());
    KIND(key_exchange_set, exset, none());
    KIND(node, nod, none());
    KIND(packet_meta, pmeta, none());
    KIND(payload, payl, ub(wickr_payload_serialize(x)));
    KIND(parse_result, pres, none());
    KIND(decode_result, dres, none());
    KIND(root_keys, rkeys, none());
    KIND(storage_keys, skeys, ub(wickr_storage_keys_serialize(x)));
    KIND(stream_key, strk, ub(wickr_stream_key_serialize(x)));
    KIND(stream_iv, siv, none());
    KIND(stream_ctx, strm, none());
    KIND(transport_packet, tpkt, ub(wickr_transport_packet_serialize(x)));
    KIND(transport_root_key, trk, none());
    KIND(transport_handshake_res, hres, none());
    KIND(transport_handshake, hsk, none());
    KIND(transport_ctx, tctx, none());
    KIND(ctx, wctx, ub(wickr_ctx_serialize(x)));
    KIND(ctx_gen_result, genr, none());
    { Kind k; k.name = "ctx_packet"; k.make = [](Rng &r) { return (void *)cpkt(r); }; k.destroy = [](void **p) { wickr_ctx_packet_destroy((wickr_ctx_packet_t **)p); };
      k.dmp = [](const void *p) { return dump((const wickr_ctx_packet_t *)p); }; k.wlk = [](void *p, const BufFn &f) { walk((wickr_ctx_packet_t *)p, f); }; k.use = [](const void *) { return none(); }; KI[k.name] = (int)K.size(); K.push_back(k); }
    { Kind k; k.name = "node_array"; k.make = [](Rng &r) { return (void *)nodarr(r); }; k.copy = [](const void *p) { return (void *)wickr_node_array_copy((const wickr_array_t *)p); }; k.destroy = [](void **p) { wickr_array_destroy((wickr_array_t **)p, true); };
      k.dmp = [](const void *p) { return dump_nodes((const wickr_array_t *)p); }; k.wlk = [](void *p, const BufFn &f) { walk_nodes((wickr_array_t *)p, f); }; k.use = [](const void *) { return none(); }; KI[k.name] = (int)K.size(); K.push_back(k); }
    { Kind k; k.name = "exchange_array"; k.make = [](Rng &r) { return (void *)exarr(r); }; k.copy = [](const void *p) { return (void *)wickr_exchange_array_copy((wickr_array_t *)p); }; k.destroy = [](void **p) { wickr_exchange_array_destroy((wickr_array_t **)p); };
      k.dmp = [](const void *p) { return dump_exchanges((const wickr_array_t *)p); }; k.wlk = [](void *p, const BufFn &f) { walk_exchanges((wickr_array_t *)p, f); }; k.use = [](const void *) { return none(); }; KI[k.name] = (int)K.size(); K.push_back(k); }
}
} // namespace v
