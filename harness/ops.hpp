// The catalogue of operations the library offers, each on objects made for it alone, with what a good result is.
// Include in exactly one translation unit of a harness; set W and E before calling make_ops().
#pragma once
#include "scen.hpp"
#include "dump.hpp"
namespace v {
#ifndef OPS_WORLD
#define OPS_WORLD static World W
#endif
OPS_WORLD;
static wickr_crypto_engine_t E;

// An operation on objects made for it alone. call: true when it reports success. check: what is wrong with the result
// of a successful call. in: everything the operation was given.
struct Oc {
    const char *name = "?";
    std::function<bool()> call;
    std::function<std::string()> check = [] { return std::string(); };
    std::function<std::string()> in = [] { return std::string(); };
    std::function<std::string()> out = [] { return std::string(); };     // the result of the last call
    bool digest_ok = true;       // a failing digest only costs the memory of an earlier verification
    bool retry = true;           // the same objects can be used again after a failure
};
template <class T> static Oc ret(const char *name, std::function<T *()> f, std::function<std::string(T *)> ck, std::function<std::string()> in)
{
    Oc o;
    auto slot = std::make_shared<H<T>>();
    o.name = name;
    o.call = [slot, f] { *slot = own(f()); return slot->get() != NULL; };
    o.check = [slot, ck] { return ck(slot->get()); };
    o.in = in;
    o.out = [slot] { return dump(slot->get()); };
    return o;
}
template <class T> using S = std::shared_ptr<H<T>>;
template <class T> static S<T> sh(T *p) { REQUIRE(p, "not-made", "an input could not be made"); return std::make_shared<H<T>>(p); }
static std::shared_ptr<View> vw(const Bytes &b) { return std::make_shared<View>(b); }
static std::string is(bool ok, const char *what) { return ok ? "" : what; }
#define IS(c, w) do { if (!(c)) return std::string(w); } while (0)

// ------------------------------------------------------------------ what a good result is
static std::string good_key(const wickr_ec_key_t *k, bool priv)
{
    IS(k && k->pub_data && k->pub_data->length == 134, "no public key");
    IS(!priv || k->pri_data, "no private key");
    return "";
}
static std::string good_cipher_key(const wickr_cipher_key_t *k) { IS(k && k->key_data && k->key_data->length == k->cipher.key_len, "incomplete key"); IS(B(k->key_data) != Bytes(k->cipher.key_len, 0), "a key of zeros"); return ""; }
static std::string good_chain(const wickr_identity_chain_t *c) { IS(ref_chain_ok(c), "the identity is not signed by its root"); return good_key(c->node->sig_key, false) + good_key(c->root->sig_key, false); }
static std::string good_eph(const wickr_ephemeral_keypair_t *k, const wickr_identity_t *o) { IS(ref_eph_ok(k, o), "the ephemeral key is not signed by its owner"); return good_key(k->ec_key, true); }
static std::string opens(const Actor &to, const Actor &from, const wickr_packet_t *pkt, const PayloadSpec &ps);
static std::string good_ctx(const wickr_ctx_t *c)
{
    IS(c && c->id_chain && c->dev_info && c->storage_keys && c->packet_header_key, "an incomplete context");
    std::string s = good_chain(c->id_chain) + good_key(c->id_chain->node->sig_key, true) + good_cipher_key(c->storage_keys->local) + good_cipher_key(c->storage_keys->remote) + good_cipher_key(c->packet_header_key);
    IS(c->dev_info->dev_salt && c->dev_info->msg_proto_id && c->dev_info->srv_comm_id, "incomplete device information");
    IS(c->pkt_enc_version == 4, "another packet version");
    return s;
}
static std::string good_gen(const wickr_ctx_gen_result_t *g)
{
    IS(g && g->ctx && g->root_keys && g->recovery_key, "an incomplete result");
    return good_ctx(g->ctx) + good_cipher_key(g->recovery_key) + good_key(g->root_keys->node_signature_root, true) + good_cipher_key(g->root_keys->node_storage_root) + good_cipher_key(g->root_keys->remote_storage_root);
}
static std::string opens(const Actor &to, const Actor &from, const wickr_packet_t *pkt, const PayloadSpec &ps)
{
    auto b = own(wickr_packet_serialize(pkt));
    IS(b, "not a packet");
    auto p = own(wickr_ctx_parse_packet(to.ctx(), b.get(), from.pub.get()));
    IS(p && p->parse_result && p->parse_result->err == E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_VALID, "a packet that is not accepted");
    auto d = own(wickr_ctx_decode_packet(to.ctx(), p.get(), to.eph->ec_key));
    IS(d && d->err == E_SUCCESS, "a packet that can not be opened");
    std::string why;
    IS(payload_matches(d->decrypted_payload, ps, &why), "a packet with another message");
    return "";
}

// ------------------------------------------------------------------ inputs
static Actor &any(Rng &r) { return W[r.below(W.size())]; }
// a chain or node whose verification is not remembered
static H<wickr_identity_chain_t> fresh_pub(const Actor &x) { auto b = own(wickr_identity_chain_serialize(x.dev.chain())); return own(wickr_identity_chain_create_from_buffer(b.get(), &E)); }
static H<wickr_node_t> fresh_node(const Actor &x) { auto b = own(wickr_node_serialize(x.node.get())); return own(wickr_node_create_from_buffer(b.get(), &E)); }
static std::string bytes_of(const wickr_node_t *n) { return hex(B(own(wickr_node_serialize(n))), 100000); }
static std::string bytes_of(const wickr_identity_chain_t *n) { return hex(B(own(wickr_identity_chain_serialize(n))), 100000); }
static PayloadSpec spec(Rng &r) { PayloadSpec p = gen_payload(r, 300); return p; }

// inputs taken by the operation when it succeeds
template <class R, class T> static R *taking(T *copy, std::function<R *(T *)> f) { auto k = own(copy); R *o = f(k.get()); if (o) k.release(); return o; }

typedef std::function<Oc(Rng &)> Mk;
static std::vector<Mk> OPS;

static void ops_ctx()
{
    OPS.push_back([](Rng &r) { auto &a = any(r); auto id = vw(r.bytes(32)); auto di = sh(wickr_dev_info_copy(a.ctx()->dev_info));
        return ret<wickr_ctx_gen_result_t>("ctx_gen_new", [=] { return wickr_ctx_gen_new(E, di->get(), &id->b); }, [=](wickr_ctx_gen_result_t *g) { IS(same(g->ctx->dev_info, di->get()), "other device information"); return good_gen(g); }, [=] { return dump(di->get()) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto &a = any(r); auto id = vw(r.bytes(32)); auto di = sh(wickr_dev_info_copy(a.ctx()->dev_info)); auto k = sh(wickr_ec_key_copy(a.dev.gen->root_keys ? a.dev.gen->root_keys->node_signature_root : a.eph->ec_key));
        return ret<wickr_ctx_gen_result_t>("ctx_gen_new_with_sig_key", [=] { return wickr_ctx_gen_new_with_sig_key(E, di->get(), k->get(), &id->b); }, [=](wickr_ctx_gen_result_t *g) { IS(same(g->ctx->id_chain->root->sig_key->pub_data, k->get()->pub_data), "another root"); return good_gen(g); }, [=] { return dump(di->get()) + dump(k->get()) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto &a = W[0]; auto id = vw(r.bytes(32)); auto di = sh(wickr_dev_info_copy(any(r).ctx()->dev_info)); auto k = sh(wickr_root_keys_copy(a.dev.gen->root_keys));
        return ret<wickr_ctx_gen_result_t>("ctx_gen_with_root_keys", [=] { return wickr_ctx_gen_with_root_keys(E, di->get(), k->get(), &id->b); }, [=](wickr_ctx_gen_result_t *g) { IS(same(g->root_keys, k->get()), "other root keys"); return good_gen(g); }, [=] { return dump(di->get()) + dump(k->get()) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto &a = W[0]; auto id = vw(r.bytes(32)); auto di = sh(wickr_dev_info_copy(any(r).ctx()->dev_info)); auto pass = vw(r.bytes(12)); auto ex = sh(wickr_ctx_gen_export_recovery_key_passphrase(a.dev.gen.get(), &pass->b)); auto data = sh(wickr_ctx_gen_result_make_recovery(a.dev.gen.get()));
        return ret<wickr_ctx_gen_result_t>("ctx_gen_with_passphrase", [=] { return wickr_ctx_gen_with_passphrase(E, di->get(), ex->get(), &pass->b, data->get(), &id->b); }, [=](wickr_ctx_gen_result_t *g) { IS(same(g->root_keys, W[0].dev.gen->root_keys), "other root keys"); return good_gen(g); }, [=] { return dump(di->get()) + dump(ex->get()) + dump(data->get()) + dump(&pass->b) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto &a = W[0]; auto id = vw(r.bytes(32)); auto di = sh(wickr_dev_info_copy(any(r).ctx()->dev_info)); auto k = sh(wickr_cipher_key_copy(a.dev.gen->recovery_key)); auto data = sh(wickr_ctx_gen_result_make_recovery(a.dev.gen.get()));
        return ret<wickr_ctx_gen_result_t>("ctx_gen_with_recovery", [=] { return wickr_ctx_gen_with_recovery(E, di->get(), data->get(), k->get(), &id->b); }, [=](wickr_ctx_gen_result_t *g) { IS(same(g->root_keys, W[0].dev.gen->root_keys), "other root keys"); return good_gen(g); }, [=] { return dump(di->get()) + dump(k->get()) + dump(data->get()) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto pass = vw(r.bytes(12));
        return ret<wickr_buffer_t>("export_recovery_key", [=] { return wickr_ctx_gen_export_recovery_key_passphrase(W[0].dev.gen.get(), &pass->b); }, [=](wickr_buffer_t *b) { auto k = own(wickr_ctx_gen_import_recovery_key_passphrase(E, b, &pass->b)); return is(k && same(k.get(), W[0].dev.gen->recovery_key), "an export that does not give the key back"); }, [=] { return dump(W[0].dev.gen.get()) + dump(&pass->b); }); });
    OPS.push_back([](Rng &r) { auto pass = vw(r.bytes(12)); auto x = sh(wickr_ctx_gen_export_recovery_key_passphrase(W[0].dev.gen.get(), &pass->b));
        return ret<wickr_cipher_key_t>("import_recovery_key", [=] { return wickr_ctx_gen_import_recovery_key_passphrase(E, x->get(), &pass->b); }, [=](wickr_cipher_key_t *k) { return is(same(k, W[0].dev.gen->recovery_key), "another key"); }, [=] { return dump(x->get()) + dump(&pass->b); }); });
    OPS.push_back([](Rng &) { return ret<wickr_buffer_t>("make_recovery", [=] { return wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get()); }, [=](wickr_buffer_t *b) { auto k = own(wickr_ctx_gen_import_recovery(E, b, W[0].dev.gen->recovery_key)); return is(k && same(k.get(), W[0].dev.gen->root_keys), "recovery data that does not give the keys back"); }, [=] { return dump(W[0].dev.gen.get()); }); });
    OPS.push_back([](Rng &) { auto x = sh(wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get()));
        return ret<wickr_root_keys_t>("import_recovery", [=] { return wickr_ctx_gen_import_recovery(E, x->get(), W[0].dev.gen->recovery_key); }, [=](wickr_root_keys_t *k) { return is(same(k, W[0].dev.gen->root_keys), "other keys"); }, [=] { return dump(x->get()) + dump(W[0].dev.gen->recovery_key); }); });
    OPS.push_back([](Rng &) { return ret<wickr_ctx_gen_result_t>("ctx_gen_result_copy", [=] { return wickr_ctx_gen_result_copy(W[0].dev.gen.get()); }, [=](wickr_ctx_gen_result_t *k) { return is(dump(k) == dump(W[0].dev.gen.get()), "a copy that differs"); }, [=] { return dump(W[0].dev.gen.get()); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); return ret<wickr_ctx_t>("ctx_copy", [=] { return wickr_ctx_copy(c); }, [=](wickr_ctx_t *k) { return is(dump(k) == dump(c), "a copy that differs"); }, [=] { return dump(c); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto di = sh(wickr_dev_info_copy(c->dev_info)); auto ch = sh(wickr_identity_chain_copy(c->id_chain)); auto st = sh(wickr_storage_keys_copy(c->storage_keys));
        return ret<wickr_ctx_t>("ctx_create", [=]() -> wickr_ctx_t * {
            auto a = own(wickr_dev_info_copy(di->get())); auto b = own(wickr_identity_chain_copy(ch->get())); auto k = own(wickr_storage_keys_copy(st->get()));
            auto *x = wickr_ctx_create(E, a.get(), b.get(), k.get());
            if (x) { a.release(); b.release(); k.release(); }
            return x;
        }, [=](wickr_ctx_t *k) { return is(same(k, c), "another context") + good_ctx(k); }, [=] { return dump(di->get()) + bytes_of(ch->get()) + dump(st->get()); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto b = sh(wickr_ctx_serialize(c)); auto di = sh(wickr_dev_info_copy(c->dev_info));
        return ret<wickr_ctx_t>("ctx_create_from_buffer", [=] { return taking<wickr_ctx_t, wickr_dev_info_t>(wickr_dev_info_copy(di->get()), [=](wickr_dev_info_t *d) { return wickr_ctx_create_from_buffer(E, d, b->get()); }); }, [=](wickr_ctx_t *k) { return is(same(k, c), "another context") + good_ctx(k); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto pass = vw(r.bytes(9));
        return ret<wickr_buffer_t>("ctx_export", [=] { return wickr_ctx_export(c, &pass->b); }, [=](wickr_buffer_t *b) { auto d = own(wickr_dev_info_copy(c->dev_info)); auto k = own(wickr_ctx_import(E, d.get(), b, &pass->b)); if (k) d.release(); return is(k && same(k.get(), c), "an export of something else"); }, [=] { return dump(c) + dump(&pass->b); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto pass = vw(r.bytes(9)); auto b = sh(wickr_ctx_export(c, &pass->b));
        return ret<wickr_ctx_t>("ctx_import", [=] { return taking<wickr_ctx_t, wickr_dev_info_t>(wickr_dev_info_copy(c->dev_info), [=](wickr_dev_info_t *d) { return wickr_ctx_import(E, d, b->get(), &pass->b); }); }, [=](wickr_ctx_t *k) { return is(same(k, c), "another context") + good_ctx(k); }, [=] { return dump(b->get()) + dump(&pass->b); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto pass = vw(r.bytes(9));
        return ret<wickr_buffer_t>("export_storage_keys", [=] { return wickr_ctx_export_storage_keys(c, &pass->b); }, [=](wickr_buffer_t *b) { auto k = own(wickr_ctx_import_storage_keys(E, b, &pass->b)); return is(k && same(k.get(), c->storage_keys), "an export of something else"); }, [=] { return dump(c) + dump(&pass->b); }); });
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); auto pass = vw(r.bytes(9)); auto b = sh(wickr_ctx_export_storage_keys(c, &pass->b));
        return ret<wickr_storage_keys_t>("import_storage_keys", [=] { return wickr_ctx_import_storage_keys(E, b->get(), &pass->b); }, [=](wickr_storage_keys_t *k) { return is(same(k, c->storage_keys), "other keys"); }, [=] { return dump(b->get()) + dump(&pass->b); }); });
    for (int local = 0; local < 2; local++) {
        OPS.push_back([local](Rng &r) { auto *c = any(r).ctx(); auto t = vw(r.bytes(r.range(1, 70)));
            return ret<wickr_cipher_result_t>(local ? "cipher_local" : "cipher_remote", [=] { return local ? wickr_ctx_cipher_local(c, &t->b) : wickr_ctx_cipher_remote(c, &t->b); }, [=](wickr_cipher_result_t *x) { auto b = own(local ? wickr_ctx_decipher_local(c, x) : wickr_ctx_decipher_remote(c, x)); return is(b && same(b.get(), &t->b), "something that does not open"); }, [=] { return dump(c) + dump(&t->b); }); });
        OPS.push_back([local](Rng &r) { auto *c = any(r).ctx(); auto t = vw(r.bytes(r.range(1, 70))); auto x = sh(local ? wickr_ctx_cipher_local(c, &t->b) : wickr_ctx_cipher_remote(c, &t->b));
            return ret<wickr_buffer_t>(local ? "decipher_local" : "decipher_remote", [=] { return local ? wickr_ctx_decipher_local(c, x->get()) : wickr_ctx_decipher_remote(c, x->get()); }, [=](wickr_buffer_t *b) { return is(same(b, &t->b), "another text"); }, [=] { return dump(c) + dump(x->get()); }); });
    }
    OPS.push_back([](Rng &r) { auto *c = any(r).ctx(); uint64_t id = gen_u64(r);
        return ret<wickr_ephemeral_keypair_t>("ephemeral_keypair_gen", [=] { return wickr_ctx_ephemeral_keypair_gen(c, id); }, [=](wickr_ephemeral_keypair_t *k) { return is(k->identifier == id, "another identifier") + good_eph(k, c->id_chain->node); }, [=] { return dump(c); }); });
}
// contexts of each packet version
static S<wickr_ctx_t> sender(const Actor &a, uint8_t v) { auto c = sh(wickr_ctx_copy(a.ctx())); (*c)->pkt_enc_version = v; return c; }
static std::shared_ptr<NodeArr> fresh_nodes(const std::vector<const Actor *> &to)
{
    std::vector<wickr_node_t *> n;
    for (auto *x : to) n.push_back(fresh_node(*x).release());
    return std::make_shared<NodeArr>(node_array(n));
}
static std::string bytes_of_nodes(const wickr_node_array_t *n) { std::string s; for (uint32_t i = 0; i < wickr_array_get_item_count(n); i++) s += bytes_of(wickr_node_array_fetch_item(n, i)); return s; }
struct Sealed { Bytes bytes; Actor *from, *to; PayloadSpec ps; };
static Sealed sealed(Rng &r)
{
    Sealed s;
    s.from = &any(r); s.to = &any(r); s.ps = spec(r);
    auto c = sender(*s.from, (uint8_t)r.range(2, 4));
    auto n = fresh_nodes({ s.to, &any(r) });
    auto pl = make_payload(s.ps);
    auto e = own(wickr_ctx_encode_packet(c->get(), pl.get(), n->get()));
    REQUIRE(e, "not-made", "a packet is not sealed");
    s.bytes = B(own(wickr_packet_serialize(e->packet)));
    return s;
}
static bool parsed_ok(const wickr_ctx_packet_t *p) { return p && p->parse_result && p->parse_result->err == E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_VALID; }
static std::string good_parse(const Sealed &s, const wickr_ctx_packet_t *p, bool opened_header)
{
    IS(p->packet && p->sender && p->parse_result, "an incomplete packet");
    IS(p->parse_result->enc_payload, "no message");
    IS(p->parse_result->key_exchange_set && (!opened_header || p->parse_result->key_exchange), "no key exchange");
    IS(same_pub(p->sender, s.from->pub.get()), "another sender");
    return "";
}
template <class T> static Oc parse_op(const char *name, std::function<T *()> f, std::function<bool(const T *)> ok, std::function<std::string(T *)> ck, std::function<std::string()> in)
{
    auto slot = std::make_shared<H<T>>();
    Oc o;
    o.name = name;
    o.call = [=] { *slot = own(f()); return ok(slot->get()); };
    o.check = [=] { return ck(slot->get()); };
    o.in = in;
    o.out = [=] { return dump(slot->get()); };
    return o;
}
static void ops_packets()
{
    for (uint8_t v = 2; v <= 4; v++) OPS.push_back([v](Rng &r) {
        Actor *a = &any(r), *b = &any(r), *d = &any(r);
        auto c = sender(*a, v); auto n = fresh_nodes({ b, d }); auto ps = spec(r); auto pl = std::make_shared<H<wickr_payload_t>>(make_payload(ps));
        auto o = ret<wickr_encoder_result_t>(v == 2 ? "encode_packet_v2" : v == 3 ? "encode_packet_v3" : "encode_packet_v4", [=] { return wickr_ctx_encode_packet(c->get(), pl->get(), n->get()); }, [=](wickr_encoder_result_t *e) {
            IS(e->packet && e->packet->version == v, "another version");
            return good_cipher_key(e->packet_key) + opens(*b, *a, e->packet, ps) + opens(*d, *a, e->packet, ps);
        }, [=] { return dump(c->get()) + dump(pl->get()) + bytes_of_nodes(n->get()); });
        o.digest_ok = true;
        return o; });
    OPS.push_back([](Rng &r) { auto s = sealed(r); auto b = vw(s.bytes); auto c = sh(fresh_pub(*s.from).release());
        return parse_op<wickr_ctx_packet_t>("parse_packet", [=] { return wickr_ctx_parse_packet(s.to->ctx(), &b->b, c->get()); }, parsed_ok, [=](wickr_ctx_packet_t *p) { return good_parse(s, p, true); }, [=] { return dump(s.to->ctx()) + dump(&b->b) + bytes_of(c->get()); }); });
    OPS.push_back([](Rng &r) { auto s = sealed(r); auto b = vw(s.bytes); auto c = sh(fresh_pub(*s.from).release());
        return parse_op<wickr_ctx_packet_t>("parse_packet_no_decode", [=] { return wickr_ctx_parse_packet_no_decode(s.to->ctx(), &b->b, c->get()); }, [](const wickr_ctx_packet_t *p) { return p && p->parse_result && p->parse_result->signature_status == PACKET_SIGNATURE_VALID && p->parse_result->err == E_SUCCESS; }, [=](wickr_ctx_packet_t *p) { return is(p->packet && p->sender, "an incomplete packet"); }, [=] { return dump(s.to->ctx()) + dump(&b->b) + bytes_of(c->get()); }); });
    OPS.push_back([](Rng &r) { auto s = sealed(r); auto b = vw(s.bytes); auto c = sh(fresh_pub(*s.from).release()); auto id = vw(s.to->dev.node_id);
        return parse_op<wickr_ctx_packet_t>("stateless_parse_packet", [=] { return wickr_ctx_stateless_parse_packet(&E, &id->b, &b->b, c->get()); }, parsed_ok, [=](wickr_ctx_packet_t *p) { return good_parse(s, p, true); }, [=] { return dump(&b->b) + bytes_of(c->get()); }); });
    OPS.push_back([](Rng &r) { auto s = sealed(r); auto b = vw(s.bytes); auto p = sh(wickr_ctx_parse_packet(s.to->ctx(), &b->b, s.from->pub.get()));
        return parse_op<wickr_decode_result_t>("decode_packet", [=] { return wickr_ctx_decode_packet(s.to->ctx(), p->get(), s.to->eph->ec_key); }, [](const wickr_decode_result_t *d) { return d && d->err == E_SUCCESS; }, [=](wickr_decode_result_t *d) { return is(payload_matches(d->decrypted_payload, s.ps), "another message") + good_cipher_key(d->payload_key); }, [=] { return dump(s.to->ctx()) + dump(p->get()) + dump(s.to->eph.get()); }); });
    // the pieces
    auto wrap = [](Rng &r, int what) -> Oc {
        Actor *a = &any(r), *b = &any(r);
        auto ek = sh(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); auto pk = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        auto psk = r.chance(1, 2) ? vw(r.bytes(20)) : nullptr; auto data = vw(r.bytes(r.range(1, 60)));
        uint8_t v = (uint8_t)r.range(2, 4);
        auto in = [=] { return dump(ek->get()) + dump(pk->get()) + bytes_of(b->node.get()) + dump(a->dev.chain()); };
        auto P = [psk]() -> const wickr_buffer_t * { return psk ? &psk->b : NULL; };
        auto *ch = a->dev.chain();
        // (the recipient opens with its ephemeral private key, the sender's public key beside it)
        auto mine = sh(wickr_node_copy(b->node.get()));
        wickr_node_rotate_keypair(mine->get(), b->eph.get(), true);
        auto mkx = [=] { return wickr_key_exchange_create_with_packet_key(&E, ch, b->node.get(), ek->get(), pk->get(), P(), v); };
        auto mkd = [=] { return wickr_key_exchange_create_with_data(&E, ch, b->node.get(), ek->get(), &data->b, CIPHER_AES256_GCM, P(), v); };
        auto opk = [=](const wickr_key_exchange_t *x) { return wickr_key_exchange_derive_packet_key(&E, ch, mine->get(), ek->get(), x, P(), v); };
        auto opd = [=](const wickr_key_exchange_t *x) { return wickr_key_exchange_derive_data(&E, ch, mine->get(), ek->get(), x, P(), v); };
        if (what == 0) return ret<wickr_key_exchange_t>("exchange_with_packet_key", mkx, [=](wickr_key_exchange_t *x) { auto k = own(opk(x)); return is(k && same(k.get(), pk->get()), "a key that does not open"); }, in);
        if (what == 1) return ret<wickr_key_exchange_t>("exchange_with_data", mkd, [=](wickr_key_exchange_t *x) { auto k = own(opd(x)); return is(k && same(k.get(), &data->b), "data that does not open"); }, in);
        auto x = sh(what == 2 ? mkx() : mkd());
        if (what == 2) return ret<wickr_cipher_key_t>("exchange_derive_packet_key", [=] { return opk(x->get()); }, [=](wickr_cipher_key_t *k) { return is(same(k, pk->get()), "another key"); }, in);
        return ret<wickr_buffer_t>("exchange_derive_data", [=] { return opd(x->get()); }, [=](wickr_buffer_t *k) { return is(same(k, &data->b), "other data"); }, in);
    };
    for (int w = 0; w < 4; w++) OPS.push_back([wrap, w](Rng &r) { return wrap(r, w); });
    OPS.push_back([](Rng &r) {
        Actor *a = &any(r), *b = &any(r);
        auto ek = sh(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); auto pk = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        auto n = fresh_nodes({ b }); auto ps = spec(r); auto pl = std::make_shared<H<wickr_payload_t>>(make_payload(ps)); auto c = sender(*a, 4);
        auto o = ret<wickr_packet_t>("packet_create_from_components", [=] { return wickr_packet_create_from_components(&E, c->get()->packet_header_key, pk->get(), ek->get(), pl->get(), n->get(), a->dev.chain(), 4); }, [=](wickr_packet_t *p) { return opens(*b, *a, p, ps); }, [=] { return dump(ek->get()) + dump(pk->get()) + dump(pl->get()) + bytes_of_nodes(n->get()); });
        o.digest_ok = true;
        return o; });
    OPS.push_back([](Rng &r) { auto ps = spec(r); auto pl = std::make_shared<H<wickr_payload_t>>(make_payload(ps)); auto pk = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        return ret<wickr_cipher_result_t>("payload_encrypt", [=] { return wickr_payload_encrypt(pl->get(), &E, pk->get()); }, [=](wickr_cipher_result_t *x) { auto p = own(wickr_payload_create_from_cipher(&E, x, pk->get())); return is(payload_matches(p.get(), ps), "another message"); }, [=] { return dump(pl->get()) + dump(pk->get()); }); });
    OPS.push_back([](Rng &r) { auto ps = spec(r); auto pl = make_payload(ps); auto pk = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); auto x = sh(wickr_payload_encrypt(pl.get(), &E, pk->get()));
        return ret<wickr_payload_t>("payload_create_from_cipher", [=] { return wickr_payload_create_from_cipher(&E, x->get(), pk->get()); }, [=](wickr_payload_t *p) { return is(payload_matches(p, ps), "another message"); }, [=] { return dump(x->get()) + dump(pk->get()); }); });
    auto mkset = [](Rng &r) {
        Actor *a = &any(r);
        auto s = sealed(r);
        auto b = mk(s.bytes);
        auto p = own(wickr_ctx_parse_packet(s.to->ctx(), b.get(), s.from->pub.get()));
        REQUIRE(parsed_ok(p.get()), "not-made", "a packet is not parsed");
        (void)a;
        return sh(wickr_key_exchange_set_copy(p->parse_result->key_exchange_set));
    };
    OPS.push_back([mkset](Rng &r) { auto x = mkset(r); auto b = sh(wickr_key_exchange_set_serialize(x->get()));
        return ret<wickr_key_exchange_set_t>("exchange_set_create_from_buffer", [=] { return wickr_key_exchange_set_create_from_buffer(&E, b->get()); }, [=](wickr_key_exchange_set_t *y) { return is(dump(y) == dump(x->get()), "another set"); }, [=] { return dump(b->get()); }); });
    OPS.push_back([mkset](Rng &r) { auto x = mkset(r); auto k = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        return ret<wickr_cipher_result_t>("exchange_set_encrypt", [=] { return wickr_key_exchange_set_encrypt(x->get(), &E, k->get()); }, [=](wickr_cipher_result_t *c) { auto y = own(wickr_key_exchange_set_create_from_cipher(&E, c, k->get())); return is(y && dump(y.get()) == dump(x->get()), "another set"); }, [=] { return dump(x->get()) + dump(k->get()); }); });
    OPS.push_back([mkset](Rng &r) { auto x = mkset(r); auto k = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); auto c = sh(wickr_key_exchange_set_encrypt(x->get(), &E, k->get()));
        return ret<wickr_key_exchange_set_t>("exchange_set_create_from_cipher", [=] { return wickr_key_exchange_set_create_from_cipher(&E, c->get(), k->get()); }, [=](wickr_key_exchange_set_t *y) { return is(dump(y) == dump(x->get()), "another set"); }, [=] { return dump(c->get()) + dump(k->get()); }); });
}
static void ops_identity()
{
    OPS.push_back([](Rng &r) { Actor *a = &any(r); auto d = vw(r.bytes(40));
        return ret<wickr_ecdsa_result_t>("identity_sign", [=] { return wickr_identity_sign(a->dev.chain()->node, &E, &d->b); }, [=](wickr_ecdsa_result_t *s) { return is(ref_signed(a->dev.chain()->node->sig_key, &d->b, s), "not a signature"); }, [=] { return dump(a->dev.chain()->node) + dump(&d->b); }); });
    OPS.push_back([](Rng &r) { auto id = vw(r.bytes(32)); auto root = sh(wickr_identity_copy(W[0].dev.chain()->root));
        if (!(*root)->sig_key->pri_data) { auto k = wickr_ec_key_copy(W[0].dev.gen->root_keys->node_signature_root); wickr_ec_key_destroy(&(*root)->sig_key); (*root)->sig_key = k; }
        return ret<wickr_identity_t>("node_identity_gen", [=] { return wickr_node_identity_gen(&E, root->get(), &id->b); }, [=](wickr_identity_t *n) { IS(ref_signed(root->get()->sig_key, n->sig_key->pub_data, n->signature), "not signed by the root"); return good_key(n->sig_key, true) + is(same(n->identifier, &id->b), "another identifier"); }, [=] { return dump(root->get()) + dump(&id->b); }); });
    OPS.push_back([](Rng &r) { Actor *a = &any(r); auto b = sh(wickr_identity_serialize(a->dev.chain()->node));
        return ret<wickr_identity_t>("identity_create_from_buffer", [=] { return wickr_identity_create_from_buffer(b->get(), &E); }, [=](wickr_identity_t *n) { return is(same_pub(n, a->dev.chain()->node), "another identity"); }, [=] { return dump(b->get()); }); });
    for (int priv = 0; priv < 2; priv++) OPS.push_back([priv](Rng &r) { Actor *a = &any(r); auto b = sh(priv ? wickr_identity_chain_serialize_private(a->dev.chain()) : wickr_identity_chain_serialize(a->dev.chain()));
        return ret<wickr_identity_chain_t>(priv ? "chain_create_from_private_buffer" : "chain_create_from_buffer", [=] { return wickr_identity_chain_create_from_buffer(b->get(), &E); }, [=](wickr_identity_chain_t *n) { return is(priv ? same(n, a->dev.chain()) : same_pub(n, a->dev.chain()), "another identity"); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &r) { auto c = sh(fresh_pub(any(r)).release());
        Oc o; o.name = "chain_validate"; o.digest_ok = true;
        o.call = [=] { return wickr_identity_chain_validate(c->get(), &E); };
        o.check = [=] { return is(c->get()->status == IDENTITY_CHAIN_STATUS_VALID, "a valid identity is not marked valid"); };
        o.in = [=] { return bytes_of(c->get()); };
        return o; });
    OPS.push_back([](Rng &r) { auto n = sh(fresh_node(any(r)).release());
        Oc o; o.name = "node_verify_signature_chain"; o.digest_ok = true;
        o.call = [=] { return wickr_node_verify_signature_chain(n->get(), &E); };
        o.check = [=] { return is(n->get()->status == NODE_STATUS_VALID, "a valid device is not marked valid"); };
        o.in = [=] { return bytes_of(n->get()); };
        return o; });
    OPS.push_back([](Rng &r) { Actor *a = &any(r);
        Oc o; o.name = "ephemeral_verify_owner";
        o.call = [=] { return wickr_ephemeral_keypair_verify_owner(a->eph.get(), &E, a->dev.chain()->node); };
        o.in = [=] { return dump(a->eph.get()); };
        return o; });
    OPS.push_back([](Rng &r) { Actor *a = &any(r);
        return ret<wickr_ephemeral_keypair_t>("ephemeral_generate_identity", [=] { return wickr_ephemeral_keypair_generate_identity(&E, 9, a->dev.chain()->node); }, [=](wickr_ephemeral_keypair_t *k) { return good_eph(k, a->dev.chain()->node); }, [=] { return dump(a->dev.chain()->node); }); });
    OPS.push_back([](Rng &r) { Actor *a = &any(r); auto b = sh(wickr_ephemeral_keypair_serialize(a->eph.get()));
        return ret<wickr_ephemeral_keypair_t>("ephemeral_create_from_buffer", [=] { return wickr_ephemeral_keypair_create_from_buffer(b->get(), &E); }, [=](wickr_ephemeral_keypair_t *k) { return is(same_pub(k, a->eph.get()), "another key"); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &r) { Actor *a = &any(r); auto b = sh(wickr_node_serialize(a->node.get()));
        return ret<wickr_node_t>("node_create_from_buffer", [=] { return wickr_node_create_from_buffer(b->get(), &E); }, [=](wickr_node_t *k) { return is(same_pub(k, a->node.get()), "another device"); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &r) { Actor *a = &any(r), *b = &any(r); bool two = r.chance(1, 2) && a->account != b->account;
        return ret<wickr_fingerprint_t>(two ? "bilateral_fingerprint" : "fingerprint", [=] { return two ? wickr_identity_get_bilateral_fingerprint(a->dev.chain()->root, b->dev.chain()->root, E) : wickr_identity_get_fingerprint(a->dev.chain()->root, E); }, [=](wickr_fingerprint_t *f) {
            auto g = own(two ? wickr_identity_get_bilateral_fingerprint(b->dev.chain()->root, a->dev.chain()->root, E) : wickr_identity_get_fingerprint(a->pub->root, E));
            return is(g && same(f, g.get()), "another fingerprint");
        }, [=] { return dump(a->dev.chain()) + dump(b->dev.chain()); }); });
    OPS.push_back([](Rng &r) { auto id = vw(r.bytes(20));
        return ret<wickr_dev_info_t>("dev_info_create_new", [=] { return wickr_dev_info_create_new(&E, &id->b); }, [=](wickr_dev_info_t *d) { auto e = own(wickr_dev_info_derive(&E, wickr_buffer_copy(d->dev_salt), &id->b)); return is(e && same(d, e.get()), "device information that can not be derived again"); }, [=] { return dump(&id->b); }); });
    OPS.push_back([](Rng &r) { auto id = vw(r.bytes(20)); auto salt = sh(mkp(r.bytes(64)));
        return ret<wickr_dev_info_t>("dev_info_derive", [=] { return taking<wickr_dev_info_t, wickr_buffer_t>(wickr_buffer_copy(salt->get()), [=](wickr_buffer_t *s) { return wickr_dev_info_derive(&E, s, &id->b); }); }, [=](wickr_dev_info_t *d) { return is(d->system_salt && B(d->system_salt) == ref::sha(256, cat({ B(&id->b) })), "another system salt") + is(d->msg_proto_id && d->srv_comm_id && d->msg_proto_id->length == 32 && d->srv_comm_id->length == 32, "incomplete identifiers"); }, [=] { return dump(&id->b) + dump(salt->get()); }); });
    OPS.push_back([](Rng &) { return ret<wickr_root_keys_t>("root_keys_generate", [=] { return wickr_root_keys_generate(&E); }, [](wickr_root_keys_t *k) { return good_key(k->node_signature_root, true) + good_cipher_key(k->node_storage_root) + good_cipher_key(k->remote_storage_root); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &) { auto b = sh(wickr_root_keys_serialize(W[0].dev.gen->root_keys));
        return ret<wickr_root_keys_t>("root_keys_create_from_buffer", [=] { return wickr_root_keys_create_from_buffer(&E, b->get()); }, [](wickr_root_keys_t *k) { return is(same(k, W[0].dev.gen->root_keys), "other keys"); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &) { auto k = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        return ret<wickr_cipher_result_t>("root_keys_export", [=] { return wickr_root_keys_export(W[0].dev.gen->root_keys, &E, k->get()); }, [=](wickr_cipher_result_t *x) { auto b = own(E.wickr_crypto_engine_cipher_decrypt(x, NULL, k->get(), true)), w = own(wickr_root_keys_serialize(W[0].dev.gen->root_keys)); return is(b && w && same(b.get(), w.get()), "an export of something else"); }, [=] { return dump(W[0].dev.gen->root_keys) + dump(k->get()); }); });
    OPS.push_back([](Rng &r) { auto *d = any(r).ctx()->dev_info;
        return ret<wickr_storage_keys_t>("root_keys_localize", [=] { return wickr_root_keys_localize(W[0].dev.gen->root_keys, &E, d); }, [=](wickr_storage_keys_t *s) { auto *k = W[0].dev.gen->root_keys; return is(B(s->local->key_data) == ref::sha(256, cat({ B(k->node_storage_root->key_data), B(d->system_salt) })) || B(s->local->key_data) == ref::sha(256, cat({ B(d->system_salt), B(k->node_storage_root->key_data) })), "another local storage key") + is(same(s->remote, k->remote_storage_root), "another remote storage key"); }, [=] { return dump(W[0].dev.gen->root_keys) + dump(d); }); });
}
static void ops_streams()
{
    OPS.push_back([](Rng &r) { uint32_t n = (uint32_t)r.range(1, 9); return ret<wickr_stream_key_t>("stream_key_create_rand", [=] { return wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, n); }, [=](wickr_stream_key_t *k) { IS(k->evolution_key && k->evolution_key->length && B(k->evolution_key) != Bytes(k->evolution_key->length, 0), "no evolution key"); return good_cipher_key(k->cipher_key) + is(k->packets_per_evolution == n, "another interval"); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &) { return ret<wickr_stream_iv_t>("stream_iv_create", [=] { return wickr_stream_iv_create(E, CIPHER_AES256_GCM); }, [](wickr_stream_iv_t *i) { auto b = own(wickr_stream_iv_generate(i)); return is(b && b->length == 12, "no nonce"); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &) { auto i = sh(wickr_stream_iv_create(E, CIPHER_AES256_GCM)); return ret<wickr_buffer_t>("stream_iv_generate", [=] { return wickr_stream_iv_generate(i->get()); }, [](wickr_buffer_t *b) { return is(b->length == 12 && B(b) != Bytes(12, 0), "no nonce"); }, [=] { return dump(i->get()); }); });
    for (int enc = 0; enc < 2; enc++) OPS.push_back([enc](Rng &) { auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)); auto d = enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE;
        return ret<wickr_stream_ctx_t>(enc ? "stream_ctx_create_encode" : "stream_ctx_create_decode", [=] { return taking<wickr_stream_ctx_t, wickr_stream_key_t>(wickr_stream_key_copy(k->get()), [=](wickr_stream_key_t *x) { return wickr_stream_ctx_create(E, x, d); }); }, [=](wickr_stream_ctx_t *s) { return is(s->direction == d && dump(s->key) == dump(k->get()), "another stream"); }, [=] { return dump(k->get()); }); });
    for (int enc = 0; enc < 2; enc++) OPS.push_back([enc](Rng &r) {
        auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, (uint32_t)r.range(1, 4)));
        auto e = sh(wickr_stream_ctx_create(E, wickr_stream_key_copy(k->get()), STREAM_DIRECTION_ENCODE)), d = sh(wickr_stream_ctx_create(E, wickr_stream_key_copy(k->get()), STREAM_DIRECTION_DECODE));
        uint64_t seq = 0;
        for (uint64_t i = r.below(4); i; i--) { View t(r.bytes(5)); auto c = own(wickr_stream_ctx_encode(e->get(), t, NULL, ++seq)); auto p = own(wickr_stream_ctx_decode(d->get(), c.get(), NULL, seq)); REQUIRE(p, "not-made", "a stream does not work"); }
        uint64_t at = seq + (r.chance(1, 3) ? r.range(2, 9) : 1);
        auto t = vw(r.bytes(r.range(1, 50))), a = vw(r.bytes(6));
        if (enc) return ret<wickr_cipher_result_t>("stream_ctx_encode", [=] { return wickr_stream_ctx_encode(e->get(), &t->b, &a->b, at); }, [=](wickr_cipher_result_t *x) { auto p = own(wickr_stream_ctx_decode(d->get(), x, &a->b, at)); return is(p && same(p.get(), &t->b), "a packet that does not open"); }, [=] { return dump(e->get()->key) + fmt("%" PRIu64, e->get()->last_seq); });
        auto x = sh(wickr_stream_ctx_encode(e->get(), &t->b, &a->b, at));
        return ret<wickr_buffer_t>("stream_ctx_decode", [=] { return wickr_stream_ctx_decode(d->get(), x->get(), &a->b, at); }, [=](wickr_buffer_t *p) { return is(same(p, &t->b), "another text"); }, [=] { return dump(d->get()); }); });
    // key agreement and passphrases
    OPS.push_back([](Rng &) { return ret<wickr_ecdh_cipher_ctx_t>("ecdh_cipher_ctx_create", [=] { return wickr_ecdh_cipher_ctx_create(E, EC_CURVE_NIST_P521, CIPHER_AES256_GCM); }, [](wickr_ecdh_cipher_ctx_t *c) { return good_key(c->local_key, true); }, [] { return std::string(); }); });
    for (int enc = 0; enc < 2; enc++) OPS.push_back([enc](Rng &r) {
        auto a = sh(wickr_ecdh_cipher_ctx_create(E, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)), b = sh(wickr_ecdh_cipher_ctx_create(E, EC_CURVE_NIST_P521, CIPHER_AES256_GCM));
        auto m = sh(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkp(r.bytes(16)), mkp(r.bytes(8)))); auto t = vw(r.bytes(33));
        auto in = [=] { return dump(a->get()) + dump(b->get()) + dump(m->get()); };
        if (enc) return ret<wickr_cipher_result_t>("ecdh_cipher", [=] { return wickr_ecdh_cipher_ctx_cipher(a->get(), &t->b, b->get()->local_key, m->get()); }, [=](wickr_cipher_result_t *x) { auto p = own(wickr_ecdh_cipher_ctx_decipher(b->get(), x, a->get()->local_key, m->get())); return is(p && same(p.get(), &t->b), "something that does not open"); }, in);
        auto x = sh(wickr_ecdh_cipher_ctx_cipher(a->get(), &t->b, b->get()->local_key, m->get()));
        return ret<wickr_buffer_t>("ecdh_decipher", [=] { return wickr_ecdh_cipher_ctx_decipher(b->get(), x->get(), a->get()->local_key, m->get()); }, [=](wickr_buffer_t *p) { return is(same(p, &t->b), "another text"); }, in); });
    for (int enc = 0; enc < 2; enc++) OPS.push_back([enc](Rng &r) {
        auto pass = vw(r.bytes(8)), t = vw(r.bytes(40)); auto algo = r.chance(1, 2) ? KDF_SCRYPT_2_17 : KDF_SCRYPT_2_18;
        if (enc) return ret<wickr_buffer_t>("kdf_cipher", [=] { return wickr_crypto_engine_kdf_cipher(&E, algo, CIPHER_AES256_GCM, &t->b, &pass->b); }, [=](wickr_buffer_t *x) { auto p = own(wickr_crypto_engine_kdf_decipher(&E, x, &pass->b)); return is(p && same(p.get(), &t->b), "something that does not open"); }, [=] { return dump(&t->b) + dump(&pass->b); });
        auto x = sh(wickr_crypto_engine_kdf_cipher(&E, algo, CIPHER_AES256_GCM, &t->b, &pass->b));
        return ret<wickr_buffer_t>("kdf_decipher", [=] { return wickr_crypto_engine_kdf_decipher(&E, x->get(), &pass->b); }, [=](wickr_buffer_t *p) { return is(same(p, &t->b), "another text"); }, [=] { return dump(x->get()) + dump(&pass->b); }); });
    // transport keys and packets
    OPS.push_back([](Rng &) { return ret<wickr_transport_root_key_t>("transport_root_key_create_random", [=] { return wickr_transport_root_key_create_random(&E, CIPHER_AES256_GCM, 5, 6); }, [](wickr_transport_root_key_t *k) { return is(k->secret && k->secret->length && B(k->secret) != Bytes(k->secret->length, 0), "no secret"); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &r) { auto k = sh(wickr_transport_root_key_create_random(&E, CIPHER_AES256_GCM, 5, 6)); auto salt = vw(r.bytes(64)), id = vw(r.bytes(6));
        return ret<wickr_stream_key_t>("transport_root_key_to_stream_key", [=] { return wickr_transport_root_key_to_stream_key(k->get(), &E, &salt->b, &id->b, STREAM_DIRECTION_ENCODE); }, [=](wickr_stream_key_t *s) { auto t = own(wickr_transport_root_key_to_stream_key(k->get(), &E, &salt->b, &id->b, STREAM_DIRECTION_ENCODE)); return is(t && dump(t.get()) == dump(s), "another key") + good_cipher_key(s->cipher_key); }, [=] { return dump(k->get()); }); });
    OPS.push_back([](Rng &r) { Actor *a = &any(r); Bytes body = r.bytes(30);
        wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521);
        auto p = sh(wickr_transport_packet_create(m, mkp(body)));
        Oc o; o.name = "transport_packet_sign";
        o.call = [=] { return wickr_transport_packet_sign(p->get(), &E, a->dev.chain()); };
        o.check = [=] { auto b = own(wickr_transport_packet_serialize(p->get())); auto q = own(b ? wickr_transport_packet_create_from_buffer(b.get()) : NULL); return is(q && wickr_transport_packet_verify(q.get(), &E, a->pub.get()), "a packet that does not verify"); };
        o.in = [=] { return dump(p->get()) + dump(a->dev.chain()); };
        o.out = [=] { return dump(p->get()); };
        return o; });
    OPS.push_back([](Rng &r) { Actor *a = &any(r); Bytes body = r.bytes(30);
        wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521);
        auto p = sh(wickr_transport_packet_create(m, mkp(body)));
        REQUIRE(wickr_transport_packet_sign(p->get(), &E, a->dev.chain()), "not-made", "a transport packet is not signed");
        auto b = own(wickr_transport_packet_serialize(p->get())); auto q = sh(wickr_transport_packet_create_from_buffer(b.get()));
        auto c = sh(fresh_pub(*a).release());
        Oc o; o.name = "transport_packet_verify"; o.digest_ok = true;
        o.call = [=] { return wickr_transport_packet_verify(q->get(), &E, c->get()); };
        o.in = [=] { return dump(q->get()) + bytes_of(c->get()); };
        return o; });
}
// ------------------------------------------------------------------ handshakes, one side's move at a time
static void h_ident(const wickr_transport_handshake_t *, wickr_identity_chain_t *c, void *) { wickr_identity_chain_destroy(&c); }
static void ops_handshake()
{
    // moves: 0 start, 1 answer, 2 approve the initiator, 3 take the answer, 4 approve the responder, 5/6 finalize either
    for (int mv = 0; mv < 7; mv++) OPS.push_back([mv](Rng &r) {
        Actor *A_ = &any(r), *Z_ = &any(r);
        auto mkh = [&](Actor *x, Actor *y, bool pin) { return sh(wickr_transport_handshake_create(E, wickr_identity_chain_copy(x->dev.chain()), pin ? wickr_identity_chain_copy(y->pub.get()) : NULL, h_ident, 7, NULL)); };
        bool pa = r.chance(1, 2), pz = r.chance(1, 2);
        if (mv == 2) pz = false;
        if (mv == 4) pa = false;
        auto a = mkh(A_, Z_, pa), z = mkh(Z_, A_, pz);
        typedef std::shared_ptr<H<wickr_transport_packet_t>> P;
        P p = std::make_shared<H<wickr_transport_packet_t>>(), out = std::make_shared<H<wickr_transport_packet_t>>();
        auto fin = std::make_shared<H<wickr_transport_handshake_res_t>>();
        auto step = [=](int i, P in, P o) -> bool {     // true: reported as a success
            auto *h = (i == 0 || i == 3 || i == 4 || i == 5 ? a : z)->get();
            switch (i) {
                case 0: *o = own(wickr_transport_handshake_start(h)); return *o && wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS;
                case 1: case 3: {
                    *o = own(wickr_transport_handshake_process(h, in->get()));
                    int s = wickr_transport_handshake_get_status(h);
                    if (i == 1 && !pz) return s == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION;
                    if (i == 3 && !pa) return s == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION;
                    return s == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION && (i == 3 || *o);
                }
                case 2: case 4: {
                    if (wickr_transport_handshake_get_status(h) != TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) return true;
                    auto q = own(wickr_transport_handshake_verify_identity(h, true));
                    if (i == 2) *o = std::move(q);
                    return wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION && (i == 4 || *o);
                }
                default: *fin = own(wickr_transport_handshake_finalize(h)); return *fin && wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_COMPLETE;
            }
        };
        int need = mv == 6 ? 5 : mv;
        for (int i = 0; i < need; i++) { P o = i == 2 || i == 4 ? p : std::make_shared<H<wickr_transport_packet_t>>(); REQUIRE(step(i, p, i == 2 && pz ? p : o), "not-made", "a handshake does not reach step %d", i); if (*o && o != p) *p = std::move(*o); }
        static const char *const nm[] = { "handshake_start", "handshake_answer", "handshake_approve_initiator", "handshake_take_answer", "handshake_approve_responder", "handshake_finalize_initiator", "handshake_finalize_responder" };
        Oc o; o.name = nm[mv]; o.retry = false;
        o.call = [=] { return step(mv, p, out); };
        o.check = [=] {
            if (mv < 5) return std::string();
            auto g = own(wickr_transport_handshake_finalize((mv == 5 ? z : a)->get()));
            IS(g, "the other side does not finish");
            return is(dump(wickr_transport_handshake_res_get_local_key(fin->get())) == dump(wickr_transport_handshake_res_get_remote_key(g.get())) && dump(wickr_transport_handshake_res_get_remote_key(fin->get())) == dump(wickr_transport_handshake_res_get_local_key(g.get())), "the two sides have different keys");
        };
        auto *me = (mv == 0 || mv == 3 || mv == 4 || mv == 5 ? a : z)->get();
        o.in = [=] { return bytes_of(wickr_transport_handshake_get_local_identity(me)) + dump(p->get()); };
        o.out = [=] { return fmt("%d ", (int)wickr_transport_handshake_get_status(me)) + dump(out->get()) + dump(fin->get()); };
        return o; });
}

static void make_ops()
{
    REQUIRE(W[0].dev.gen->root_keys && W[0].dev.gen->recovery_key, "not-made", "no root keys");
    ops_ctx(); ops_packets(); ops_identity(); ops_streams(); ops_handshake();
}
} // namespace v
