// C16: public forms of keys and identities never carry private keys.
#include "scen.hpp"
#include "taint.hpp"
namespace v {
const char *PROP_ID = "C16";
static World W;
static Taint T;
static void sec(const wickr_ec_key_t *k, const char *n) { T.add(scalar_of(k), n); }
static void sec(const wickr_cipher_key_t *k, const char *n) { T.add(B(k->key_data), n); }
static void learn(const Device &d)
{
    sec(d.chain()->node->sig_key, "a device's private signing key");
    sec(d.chain()->root->sig_key, "an account's private signing key");
    sec(d.ctx()->storage_keys->local, "a local storage key");
    sec(d.ctx()->storage_keys->remote, "a remote storage key");
    if (d.gen->root_keys) { sec(d.gen->root_keys->node_storage_root, "a storage root key"); sec(d.gen->root_keys->remote_storage_root, "a storage root key"); sec(d.gen->root_keys->node_signature_root, "an account's private signing key"); }
    if (d.gen->recovery_key) sec(d.gen->recovery_key, "a recovery key");
}
void prop_init()
{
    Rng r(g_seed * 131 + 16);
    W.build(r, 6, mon_engine());
    for (auto &x : W.a) { learn(x.dev); sec(x.eph->ec_key, "a private ephemeral key"); }
}
static void pub(const Bytes &b, const char *what)
{
    REQUIRE(!b.empty(), "not-made", "%s could not be made", what);
    size_t at = 0;
    const char *s = T.scan(b, &at);
    EXPECT(!s, fmt("private-bytes:%s", what), "%s contains bytes of %s (at %zu of %zu)", what, s, at, b.size());
    Bytes rev(b.rbegin(), b.rend());
    s = T.scan(rev);
    EXPECT(!s, fmt("private-bytes:%s", what), "%s contains the reversed bytes of %s", what, s);
    ev("public_scans");
    ev("bytes_scanned", b.size());
}
static void pub(const wickr_buffer_t *b, const char *what) { pub(B(b), what); }
static void pub(const H<wickr_buffer_t> &b, const char *what) { pub(B(b), what); }
static void nopriv(const wickr_ec_key_t *k, const char *what) { EXPECT(k && !k->pri_data, fmt("private-key:%s", what), "%s has a private key", what); ev("public_objects"); }
static void nopriv(const wickr_identity_chain_t *c, const char *what) { nopriv(c->root->sig_key, what); nopriv(c->node->sig_key, what); }
// an identity with or without its private key
static H<wickr_identity_t> ident(const wickr_identity_t *i, bool priv)
{
    auto c = own(wickr_identity_copy(i));
    if (!priv) wickr_buffer_destroy_zero(&c->sig_key->pri_data);
    return c;
}
static void identities(Rng &r, Actor &A)
{
    auto *ch = A.dev.chain();
    bool rp = r.chance(3, 4), np = r.chance(3, 4);
    auto root = ident(ch->root, rp), node = ident(ch->node, np);
    distinct(fmt("identities root=%d node=%d", rp, np));
    for (auto *i : { root.get(), node.get() }) {
        auto s = own(wickr_identity_serialize(i));
        pub(s, "a serialized identity");
        auto p = own(wickr_identity_create_from_buffer(s.get(), &W.e));
        REQUIRE(p, "not-parsed", "a serialized identity does not parse");
        nopriv(p->sig_key, "a published identity");
        pub(own(wickr_identity_serialize(p.get())), "a serialized identity");
        auto f = own(wickr_identity_get_fingerprint(i, W.e));
        REQUIRE(f, "not-made", "no fingerprint");
        pub(f->data, "a fingerprint");
        for (auto m : { FINGERPRINT_OUTPUT_SHORT, FINGERPRINT_OUTPUT_LONG }) {
            auto x = own(wickr_fingerprint_get_hex(f.get(), m)), y = own(wickr_fingerprint_get_b32(f.get(), m));
            pub(x, "the text of a fingerprint");
            pub(y, "the text of a fingerprint");
            auto d = own(getDataFromHexString(x.get()));
            if (d) pub(d, "the text of a fingerprint");
            auto d2 = own(base32_decode(y.get()));
            if (d2) pub(d2, "the text of a fingerprint");
        }
        auto b = own(wickr_identity_get_bilateral_fingerprint(i, W[(size_t)r.below(W.size())].dev.chain()->root, W.e));
        if (b) pub(b->data, "a two-party fingerprint");
        auto fx = own(wickr_ec_key_get_pubdata_fixed_len(i->sig_key));
        pub(fx, "the public part of a key");
    }
    auto c = own(wickr_identity_chain_create(wickr_identity_copy(root.get()), wickr_identity_copy(node.get())));
    REQUIRE(c, "not-made", "no chain");
    auto s = own(wickr_identity_chain_serialize(c.get()));
    pub(s, "a serialized identity chain");
    auto p = own(wickr_identity_chain_create_from_buffer(s.get(), &W.e));
    REQUIRE(p, "not-parsed", "a serialized chain does not parse");
    nopriv(p.get(), "a published identity chain");
    { auto pc = own(wickr_identity_chain_copy(p.get())); pub(own(wickr_identity_chain_serialize(pc.get())), "a serialized identity chain"); }
    // the explicitly private encoding carries both keys, and only exists where both are known
    auto ps = own(wickr_identity_chain_serialize_private(c.get()));
    if (rp && np) {
        REQUIRE(ps, "private-refused", "a chain with its private keys has no private encoding");
        Bytes w = B(ps);
        EXPECT(contains(w, scalar_of(ch->root->sig_key)) && contains(w, scalar_of(ch->node->sig_key)), "private-missing", "the private encoding of a chain lacks a private key");
        auto q = own(wickr_identity_chain_create_from_buffer(ps.get(), &W.e));
        EXPECT(q && q->root->sig_key->pri_data && q->node->sig_key->pri_data, "private-missing", "the private encoding of a chain does not restore the private keys");
        if (q) pub(own(wickr_identity_chain_serialize(q.get())), "a serialized identity chain");
        ev("private_encodings");
    } else
        EXPECT(!ps, "private-incomplete", "a chain lacking a private key has a private encoding (root %d, node %d)", rp, np);
    if (ps && !(rp && np)) ev("incomplete_private");
}
static void ephemerals(Rng &r, Actor &A)
{
    auto k = own(wickr_ephemeral_keypair_copy(A.eph.get()));
    if (r.chance(1, 3)) { k = gen_eph(A.dev, gen_u64(r)); sec(k->ec_key, "a private ephemeral key"); }
    Bytes sc = scalar_of(k->ec_key), pd = B(k->ec_key->pub_data);
    auto s = own(wickr_ephemeral_keypair_serialize(k.get()));
    REQUIRE(s, "not-made", "an ephemeral key can not be serialized");
    // the encoding of an ephemeral key is public
    pub(s, "a serialized ephemeral key");
    auto back = own(wickr_ephemeral_keypair_create_from_buffer(s.get(), &W.e));
    REQUIRE(back, "not-parsed", "a serialized ephemeral key does not parse");
    nopriv(back->ec_key, "a published ephemeral key");
    { // a pair that carries no signature
        auto u = own(wickr_ephemeral_keypair_create(k->identifier, wickr_ec_key_copy(k->ec_key), NULL));
        REQUIRE(u, "not-made", "no unsigned ephemeral key");
        auto us = own(wickr_ephemeral_keypair_serialize(u.get()));
        if (us) pub(us, "a serialized unsigned ephemeral key");
        auto n = own(wickr_node_create(wickr_buffer_copy(A.ctx()->dev_info->msg_proto_id), wickr_identity_chain_copy(A.dev.chain()), u.release()));
        auto ns = own(wickr_node_serialize(n.get()));
        if (ns) pub(ns, "a serialized device with an unsigned ephemeral key");
    }
    auto before = own(wickr_ephemeral_keypair_copy(k.get()));
    size_t cap = k->ec_key->pri_data->length;
    wickr_ephemeral_keypair_make_public(k.get());
    EXPECT(!k->ec_key->pri_data, "still-private", "an ephemeral key keeps %zu private bytes after being made public", cap);
    EXPECT(eq(k->ec_key->pub_data, pd), "public-changed", "making an ephemeral key public changes its public part");
    EXPECT(scalar_of(before->ec_key) == sc, "copy-changed", "making an ephemeral key public changes an earlier copy");
    EXPECT(wickr_ephemeral_keypair_verify_owner(k.get(), &W.e, A.dev.chain()->node), "owner-lost", "an ephemeral key made public is no longer owned");
    auto after = own(wickr_ephemeral_keypair_copy(k.get()));
    REQUIRE(after, "not-made", "a public ephemeral key can not be copied");
    nopriv(after->ec_key, "a copy of an ephemeral key made public");
    pub(own(wickr_ephemeral_keypair_serialize(after.get())), "a serialized ephemeral key");
    if (r.chance(1, 2)) { wickr_ephemeral_keypair_make_public(k.get()); EXPECT(!k->ec_key->pri_data, "still-private", "made public twice"); }
    auto kc = own(wickr_ec_key_copy(k->ec_key));
    EXPECT(kc && !kc->pri_data, "still-private", "a copy of the key of an ephemeral key made public has a private part");
    ev("made_public");
}
static void nodes(Rng &r, Actor &A)
{
    bool pub_eph = r.chance(1, 3), pub_chain_ = r.chance(1, 3);
    auto n = own(wickr_node_create(wickr_buffer_copy(A.ctx()->dev_info->msg_proto_id), wickr_identity_chain_copy(A.dev.chain()), wickr_ephemeral_keypair_copy(A.eph.get())));
    REQUIRE(n, "not-made", "no device");
    if (pub_eph) wickr_ephemeral_keypair_make_public(n->ephemeral_keypair);
    if (pub_chain_) { wickr_buffer_destroy_zero(&n->id_chain->root->sig_key->pri_data); if (r.chance(1, 2)) wickr_buffer_destroy_zero(&n->id_chain->node->sig_key->pri_data); }
    distinct(fmt("node eph=%d chain=%d", pub_eph, pub_chain_));
    if (!pub_eph && n->id_chain->node->sig_key->pri_data && r.chance(1, 3)) {
        REQUIRE(wickr_node_rotate_keypair(n.get(), A.eph.get(), true), "not-made", "the key of a device can not be replaced");
    }
    auto s = own(wickr_node_serialize(n.get()));
    pub(s, "a serialized device");
    auto p = own(wickr_node_create_from_buffer(s.get(), &W.e));
    REQUIRE(p, "not-parsed", "a serialized device does not parse");
    nopriv(p->ephemeral_keypair->ec_key, "a published device");
    nopriv(p->id_chain, "a published device");
    auto c = own(wickr_node_copy(n.get()));
    pub(own(wickr_node_serialize(c.get())), "a serialized device");
}
static void messages(Rng &r, Actor &S)
{
    int ver = (int)r.range(2, 4);
    std::vector<wickr_node_t *> to;
    size_t n = r.range(1, 4);
    std::string shape;
    for (size_t i = 0; i < n; i++) {
        Actor &x = W[(size_t)r.below(W.size())];
        // devices given with or without the private keys the caller happens to hold
        if (r.chance(1, 2)) to.push_back(wickr_node_copy(x.node.get()));
        else { to.push_back(wickr_node_create(wickr_buffer_copy(x.ctx()->dev_info->msg_proto_id), wickr_identity_chain_copy(x.dev.chain()), wickr_ephemeral_keypair_copy(x.eph.get()))); shape += "p"; }
    }
    auto arr = node_array(to);
    PayloadSpec ps = gen_payload(r, 3000);
    auto pl = make_payload(ps);
    S.ctx()->pkt_enc_version = (uint8_t)ver;
    mon().reset();
    mon().record = true;
    auto enc = own(wickr_ctx_encode_packet(S.ctx(), pl.get(), arr.get()));
    mon().record = false;
    REQUIRE(enc, "not-made", "sealing failed");
    Taint L = T;      // and the secrets of this message
    std::swap(L, T);
    struct Back { Taint &l; ~Back() { std::swap(l, T); } } back{ L };
    for (auto &c : mon().calls) {
        if (c.op == OP_ECRAND) T.add(der_scalar(c.out), "the private exchange key of a message");
        if (c.op == OP_KEYRAND) T.add(c.out, "a message key");
        if (c.op == OP_ECDH) T.add(c.out, "a shared secret");
    }
    // everything that was encrypted for others to see: the header, and each exchange apart from the message key it wraps
    Bytes hk = ref::header_key(S.dev.root_id, S.dev.node_id);
    auto ser = own(wickr_packet_serialize(enc->packet));
    pub(ser, "a sealed message");
    pub(enc->packet->content, "the content of a sealed message");
    pub(enc->packet->signature->sig_data, "the signature of a message");
    ref::Split s;
    REQUIRE(ref::split(B(ser), s), "not-parsed", "the packet can not be split");
    Bytes hdr, body;
    REQUIRE(ref::gcm_unbox(hk, s.hdr, hdr), "not-parsed", "the header can not be opened");
    pub(hdr, "the header of a message");
    REQUIRE(ref::gcm_unbox(B(enc->packet_key->key_data), s.pl, body), "not-parsed", "the body can not be opened");
    pub(body, "the body of a message");
    // as parsed by a recipient
    for (auto &x : W.a) {
        bool addressed = false;
        for (size_t i = 0; i < n; i++) addressed |= same(to[i]->id_chain->node->identifier, x.dev.chain()->node->identifier);
        if (!addressed) continue;
        auto cp = own(wickr_ctx_parse_packet(x.ctx(), ser.get(), S.pub.get()));
        REQUIRE(cp && cp->parse_result && cp->parse_result->err == E_SUCCESS, "not-parsed", "a recipient can not parse the message");
        nopriv(cp->parse_result->key_exchange_set->sender_pub, "the exchange key of a parsed message");
        nopriv(cp->sender, "the sender of a parsed message");
        pub(own(wickr_key_exchange_set_serialize(cp->parse_result->key_exchange_set)), "a serialized key exchange set");
        break;
    }
    // a set built around the private exchange key serializes to its public part only
    {
        auto ek = own(W.e.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
        REQUIRE(ek, "not-made", "no key");
        T.add(scalar_of(ek.get()), "the private exchange key of a message");
        auto mk_ = own(W.e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        T.add(B(mk_->key_data), "a message key");
        auto ar = wickr_exchange_array_new(1);
        auto ex = wickr_key_exchange_create_with_packet_key(&W.e, S.dev.chain(), to[0], ek.get(), mk_.get(), NULL, (uint8_t)ver);
        REQUIRE(ex, "not-made", "no exchange");
        wickr_exchange_array_set_item(ar, 0, ex);
        auto set = own(wickr_key_exchange_set_create(wickr_ec_key_copy(ek.get()), ar));
        pub(own(wickr_key_exchange_set_serialize(set.get())), "a serialized key exchange set");
        auto sc = own(wickr_key_exchange_set_copy(set.get()));
        pub(own(wickr_key_exchange_set_serialize(sc.get())), "a serialized key exchange set");
    }
    ev("messages");
    distinct(fmt("message v%d n%zu %s", ver, n, shape.c_str()));
}
static void transports(Rng &r, Actor &A, Actor &Z)
{
    mon().reset();
    bool pa = r.chance(1, 2), pz = r.chance(1, 2), priv_pin = r.chance(1, 3);
    auto a = make_ep("a", W.e, A.dev.chain(), pa ? (priv_pin ? Z.dev.chain() : Z.pub.get()) : NULL, 0);
    auto z = make_ep("z", W.e, Z.dev.chain(), pz ? (priv_pin ? A.dev.chain() : A.pub.get()) : NULL, 0);
    Taint L = T;
    std::swap(L, T);
    struct Back { Taint &l; ~Back() { mon().on_call = nullptr; std::swap(l, T); } } back{ L };
    mon().on_call = [&](const CallRec &c) {
        if (c.op == OP_ECRAND) T.add(der_scalar(c.out), "the private key of a handshake");
        if (c.op == OP_KEYRAND || c.op == OP_ECDH) T.add(c.out, "a key of a handshake");
        if (c.op == OP_ENC) T.add(c.key, "a key of a transport");
    };
    a->start();
    pump(*a, *z);
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && z->status() == TRANSPORT_STATUS_ACTIVE, "not-made", "the handshake failed");
    for (int i = 0; i < 3; i++) { a->send(r.bytes(50)); z->send(r.bytes(50)); pump(*a, *z); }
    mon().on_call = nullptr;
    size_t i = 0;
    for (auto &p : a->tx) pub(p, i++ < 2 ? "a handshake packet" : "a transport packet");
    i = 0;
    for (auto &p : z->tx) pub(p, i++ < 1 ? "a handshake packet" : "a transport packet");
    for (auto *x : { a.get(), z.get() }) for (auto &c : x->verify) pub(c, "the identity passed to the callback");
    for (auto *x : { a.get(), z.get() }) for (bool b : x->verify_priv) EXPECT(!b, "private-key:callback", "the identity passed to the callback has a private key");
    for (auto *x : { a.get(), z.get() }) {
        auto *rc = wickr_transport_ctx_get_remote_identity_ptr(x->t.get());
        if (rc && !priv_pin) nopriv(rc, "the peer's identity of a transport");
    }
    ev("handshakes");
    distinct(fmt("transport %d%d%d", pa, pz, priv_pin));
}
static void privates(Rng &r, Actor &A)
{
    // the private encodings do carry the keys (or the scans above would prove nothing)
    auto s = own(wickr_ctx_serialize(A.ctx()));
    REQUIRE(s, "not-made", "a context can not be serialized");
    Bytes w = B(s);
    EXPECT(contains(w, scalar_of(A.dev.chain()->node->sig_key)) && contains(w, B(A.ctx()->storage_keys->local->key_data)) && contains(w, B(A.ctx()->storage_keys->remote->key_data)), "private-missing", "a serialized context lacks its private keys");
    EXPECT(T.scan(w) != nullptr, "monitor", "the scan does not find keys that are there");
    auto rk = own(wickr_root_keys_serialize(A.dev.gen->root_keys));
    REQUIRE(rk, "not-made", "root keys can not be serialized");
    EXPECT(contains(B(rk), scalar_of(A.dev.gen->root_keys->node_signature_root)), "private-missing", "serialized root keys lack the signing key");
    ev("private_encodings");
    // ciphertexts of own data
    auto pt = mk(r.bytes(200));
    for (auto *fn : { wickr_ctx_cipher_local, wickr_ctx_cipher_remote }) {
        auto c = own(fn(A.ctx(), pt.get()));
        REQUIRE(c, "not-made", "no ciphertext");
        pub(own(wickr_cipher_result_serialize(c.get())), "stored data");
    }
    auto rec = own(wickr_ctx_gen_result_make_recovery(A.dev.gen.get()));
    pub(rec, "recovery data");
    auto pw = mk(r.bytes(12));
    pub(own(wickr_ctx_gen_export_recovery_key_passphrase(A.dev.gen.get(), pw.get())), "an exported recovery key");
    pub(own(wickr_ctx_export(A.ctx(), pw.get())), "an exported context");
    pub(own(wickr_ctx_export_storage_keys(A.ctx(), pw.get())), "exported storage keys");
    auto sg = own(wickr_identity_sign(A.dev.chain()->node, &W.e, pt.get()));
    REQUIRE(sg, "not-made", "no signature");
    pub(own(wickr_ecdsa_result_serialize(sg.get())), "a signature");
}
void prop_case(uint64_t k, Rng &r)
{
    mon().reset();
    rand_seed(r.u64());
    Actor &A = W[(size_t)r.below(W.size())];
    identities(r, A);
    ephemerals(r, A);
    nodes(r, A);
    messages(r, A);
    privates(r, A);
    if (k % 4 == 0) { Actor &Z = W[(size_t)r.below(W.size())]; if (&Z != &A) transports(r, A, Z); }
    if (k % 50 == 7) { W.a.clear(); T.clear(); W.build(r, 6, mon_engine()); for (auto &x : W.a) { learn(x.dev); sec(x.eph->ec_key, "a private ephemeral key"); } }
    if (k < 3) sample(fmt("%zu secrets tracked; device, chain, ephemeral key, message and private encodings of one device scanned", T.secs.size()));
}
void prop_fini() { if (!T.secs.empty()) ev("secrets_tracked", T.secs.size()); }
}
