// Shared actors and transport endpoints for the property harnesses.
#pragma once
#include "common.hpp"
#include "ref.hpp"

namespace v {

// ------------------------------------------------------------------ a population of accounts and devices
struct Actor {
    Device dev;
    H<wickr_ephemeral_keypair_t> eph;     // with private key
    uint64_t kid = 0;
    H<wickr_node_t> node;                 // as others see it (public, through serialization)
    H<wickr_identity_chain_t> pub;
    int account = 0;
    wickr_ctx_t *ctx() const { return dev.ctx(); }
};
struct World {
    std::vector<Actor> a;
    wickr_crypto_engine_t e;
    void add(Rng &r, int account, const Actor *sibling, const Bytes *identifier = nullptr)
    {
        Actor x;
        x.dev = sibling ? add_device(r, e, sibling->dev) : make_device(r, e, identifier);
        x.account = account;
        x.kid = gen_u64(r);
        x.eph = gen_eph(x.dev, x.kid);
        x.node = public_node(x.dev, x.eph.get(), e);
        x.pub = public_chain(x.dev, e);
        a.push_back(std::move(x));
    }
    // accounts of one to three devices
    void build(Rng &r, int n, wickr_crypto_engine_t eng)
    {
        e = eng;
        int acc = 0, last = -1;
        for (int i = 0; i < n; i++) {
            if (last >= 0 && i % 3 == 2) add(r, a[last].account, &a[last]);
            else { last = (int)a.size(); add(r, acc++, nullptr); }
        }
    }
    // a device whose identifiers have other lengths than the ones the library makes: another node identifier (signed by the
    // same account), another device identifier, put together with the public constructors
    void odd(Rng &r, size_t i, size_t node_len = 0, size_t dev_len = 0)
    {
        Actor &x = a[i];
        wickr_ctx_t *c = x.ctx();
        if (!node_len) node_len = r.pick<size_t>({ 1, 16, 31, 33, 48, 64, 100, 127 });
        if (!dev_len) dev_len = r.pick<size_t>({ 1, 16, 31, 33, 48, 64, 65, 100, 127, 128, 200 });
        auto nid = mk(r.bytes(node_len));
        auto node = own(wickr_node_identity_gen(&e, c->id_chain->root, nid.get()));
        REQUIRE(node, "make-device", "making a node identity with a %zu byte identifier failed", node_len);
        auto ch = own(wickr_identity_chain_create(wickr_identity_copy(c->id_chain->root), node.get()));
        REQUIRE(ch, "make-device", "making an identity chain failed");
        node.release();
        auto di = own(wickr_dev_info_create(wickr_buffer_copy(c->dev_info->dev_salt), wickr_buffer_copy(c->dev_info->system_salt), mkp(r.bytes(dev_len)), wickr_buffer_copy(c->dev_info->srv_comm_id)));
        REQUIRE(di, "make-device", "making device information failed");
        auto st = own(wickr_storage_keys_copy(c->storage_keys));
        wickr_ctx_t *n = wickr_ctx_create(e, di.get(), ch.get(), st.get());
        REQUIRE(n, "make-device", "making a context of a device with a %zu byte identifier failed", dev_len);
        di.release(); ch.release(); st.release();
        wickr_ctx_destroy(&x.dev.gen->ctx);
        x.dev.gen->ctx = n;
        x.dev.node_id = B(n->id_chain->node->identifier);
        x.dev.dev_id = B(n->dev_info->msg_proto_id);
        x.eph = gen_eph(x.dev, x.kid);
        x.node = public_node(x.dev, x.eph.get(), e);
        x.pub = public_chain(x.dev, e);
    }
    Actor &operator[](size_t i) { return a[i]; }
    size_t size() const { return a.size(); }
};
inline ref::Recip recip(const Actor &x, const wickr_ephemeral_keypair_t *eph = nullptr)
{
    ref::Recip r;
    if (!eph) eph = x.eph.get();
    r.node_id = x.dev.node_id;
    r.dev_id = x.dev.dev_id;
    r.root_pub = B(x.dev.chain()->root->sig_key->pub_data);
    r.eph_pub = B(eph->ec_key->pub_data);
    r.kid = eph->identifier;
    return r;
}
inline NodeArr nodes_for(const std::vector<const Actor *> &to)
{
    std::vector<wickr_node_t *> n;
    for (auto *x : to) n.push_back(wickr_node_copy(x->node.get()));
    return node_array(n);
}

// ------------------------------------------------------------------ transports
struct Endpoint {
    const char *name = "?";
    H<wickr_transport_ctx_t> t;
    std::vector<Bytes> tx;              // packets emitted, oldest first
    size_t tx_taken = 0;
    std::vector<Bytes> rx;              // application data delivered
    std::vector<int> states;            // reported state changes
    std::vector<Bytes> verify;          // public chain passed to each identity callback
    std::vector<bool> verify_priv;
    std::vector<std::string> trace;     // everything in order
    enum Policy { APPROVE, REFUSE, DEFER } policy = APPROVE;
    wickr_transport_validate_identity_callback pending = nullptr;
    wickr_crypto_engine_t e;
    bool has_tx() const { return tx_taken < tx.size(); }
    Bytes take() { return tx[tx_taken++]; }
    int status() const { return wickr_transport_ctx_get_status(t.get()); }
    int error() const { return wickr_transport_ctx_get_last_error(t.get()); }
    void feed(const Bytes &b) { View w(b); wickr_transport_ctx_process_rx_buffer(t.get(), w); }
    void send(const Bytes &b) { View w(b); wickr_transport_ctx_process_tx_buffer(t.get(), w); }
    void start() { wickr_transport_ctx_start(t.get()); }
    void decide(bool ok) { auto p = pending; if (p) p(t.get(), ok); }
};
// keeps what may be a data packet within reach of the sequence numbers in use: how much work a far away one causes
// is C11's subject (and a known finding there)
inline Bytes tame(Bytes b) { if (b.size() >= 9) for (int i = 3; i < 9; i++) b[i] = (b[0] & 0xf) == TRANSPORT_MAC_TYPE_AUTH_CIPHER || (b[0] >> 4) == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ? 0 : b[i]; return b; }
inline Endpoint *ep_of(const wickr_transport_ctx_t *c) { return (Endpoint *)const_cast<void *>(wickr_transport_ctx_get_user_ctx(c)); }
inline void ep_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { auto *e = ep_of(c); { InHarness ih; e->tx.push_back(B(d)); e->trace.push_back("tx"); } wickr_buffer_destroy(&d); }
inline void ep_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { auto *e = ep_of(c); { InHarness ih; e->rx.push_back(B(d)); e->trace.push_back("rx"); } wickr_buffer_destroy(&d); }
inline void ep_state(const wickr_transport_ctx_t *c, wickr_transport_status s) { auto *e = ep_of(c); InHarness ih; e->states.push_back((int)s); e->trace.push_back(fmt("state%d", (int)s)); }
inline Bytes chain_bytes(const wickr_identity_chain_t *c) { auto s = own(wickr_identity_chain_serialize(c)); return B(s); }
inline void ep_verify(const wickr_transport_ctx_t *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done)
{
    auto *e = ep_of(c);
    {
        InHarness ih;
        e->verify.push_back(chain_bytes(id));
        e->verify_priv.push_back(id && ((id->root && id->root->sig_key->pri_data) || (id->node && id->node->sig_key->pri_data)));
        e->trace.push_back("verify");
        e->pending = done;
    }
    wickr_identity_chain_destroy(&id);
    if (e->policy == Endpoint::APPROVE) done(c, true);
    else if (e->policy == Endpoint::REFUSE) done(c, false);
}
inline wickr_transport_callbacks_t ep_callbacks() { wickr_transport_callbacks_t cb; cb.tx = ep_tx; cb.rx = ep_rx; cb.on_state = ep_state; cb.on_identity_verify = ep_verify; return cb; }
inline std::unique_ptr<Endpoint> make_ep(const char *name, wickr_crypto_engine_t e, const wickr_identity_chain_t *local, const wickr_identity_chain_t *pin, uint32_t evo)
{
    std::unique_ptr<Endpoint> x(new Endpoint);
    x->name = name;
    x->e = e;
    x->t = own(wickr_transport_ctx_create(e, wickr_identity_chain_copy(local), pin ? wickr_identity_chain_copy(pin) : NULL, evo, ep_callbacks(), x.get()));
    REQUIRE(x->t, "transport-create", "creating a transport failed (evo %u)", evo);
    return x;
}
// run everything pending between two endpoints until quiet
inline void pump(Endpoint &a, Endpoint &b, int max = 1000)
{
    while (max-- && (a.has_tx() || b.has_tx())) {
        if (a.has_tx()) b.feed(a.take());
        if (b.has_tx()) a.feed(b.take());
    }
}
// transport chain parsed from a live chain
inline ref::Chain ref_chain(const wickr_identity_chain_t *c)
{
    ref::Chain o;
    if (!ref::dec_chain(chain_bytes(c), o)) throw CaseAbort();
    if (c->node->sig_key->pri_data) o.node.key.der = B(c->node->sig_key->pri_data);
    if (c->root->sig_key->pri_data) o.root.key.der = B(c->root->sig_key->pri_data);
    return o;
}
// a library chain (with private keys) made from a reference chain
inline H<wickr_identity_chain_t> lib_chain(const ref::Chain &c, wickr_crypto_engine_t e, bool priv)
{
    auto b = mk(ref::enc_chain(c, priv));
    auto r = own(wickr_identity_chain_create_from_buffer(b.get(), &e));
    return r;
}
} // namespace v
namespace v {
// ------------------------------------------------------------------ ownership, decided from the current bytes
inline int digest_bits(const wickr_digest_t &d) { return d.digest_id == DIGEST_ID_SHA256 ? 256 : d.digest_id == DIGEST_ID_SHA384 ? 384 : 512; }
inline bool ref_signed(const wickr_ec_key_t *by, const wickr_buffer_t *data, const wickr_ecdsa_result_t *sig)
{
    if (!by || !data || !sig || !sig->sig_data) return false;
    return ref::ecdsa_verify(B(by->pub_data), B(data), B(sig->sig_data), digest_bits(sig->digest_mode));
}
inline bool ref_chain_ok(const wickr_identity_chain_t *c) { return c && c->root && c->node && ref_signed(c->root->sig_key, c->node->sig_key->pub_data, c->node->signature); }
inline bool ref_eph_ok(const wickr_ephemeral_keypair_t *k, const wickr_identity_t *owner) { return k && owner && ref_signed(owner->sig_key, k->ec_key->pub_data, k->signature); }
inline bool ref_node_ok(const wickr_node_t *n) { return ref_chain_ok(n->id_chain) && ref_eph_ok(n->ephemeral_keypair, n->id_chain->node); }
}
