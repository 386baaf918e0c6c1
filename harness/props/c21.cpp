// C21: ownership checks accept exactly what the owner signed.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C21";
static World W;
void prop_init() { Rng r(g_seed * 77 + 21); W.build(r, 6, plain_engine()); }
static H<wickr_identity_chain_t> roundtrip(Rng &r, H<wickr_identity_chain_t> c)
{
    wickr_crypto_engine_t e = plain_engine();
    auto s = own(r.chance(1, 2) ? wickr_identity_chain_serialize(c.get()) : wickr_identity_chain_serialize_private(c.get()));
    if (!s) return c;
    auto n = own(wickr_identity_chain_create_from_buffer(s.get(), &e));
    return n ? std::move(n) : std::move(c);
}
static std::string edit(Rng &r, wickr_identity_chain_t *c, Actor &x)
{
    wickr_crypto_engine_t e = plain_engine();
    auto flip = [&](wickr_buffer_t *b) { if (b && b->length) b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); };
    switch (r.below(13)) {
        case 0: flip(c->root->sig_key->pub_data); return "flip root key";
        case 1: flip(c->node->sig_key->pub_data); return "flip device key";
        case 2: if (c->node->signature) flip(c->node->signature->sig_data); return "flip signature";
        case 3: wickr_ecdsa_result_destroy(&c->node->signature); return "drop signature";
        case 4: { auto *i = wickr_identity_copy(x.dev.chain()->root); wickr_identity_destroy(&c->root); c->root = i; return "other root"; }
        case 5: { auto *i = wickr_identity_copy(x.dev.chain()->node); wickr_identity_destroy(&c->node); c->node = i; return "other device"; }
        case 6: if (c->node->signature) { auto *s = wickr_ecdsa_result_copy(x.dev.chain()->node->signature); wickr_ecdsa_result_destroy(&c->node->signature); c->node->signature = s; } return "other device's signature";
        case 7: { // a signature by the right root over something else
            if (!x.dev.chain()->root->sig_key->pri_data) return "nothing";
            auto b = mk(r.bytes(40));
            auto *s = wickr_identity_sign(x.dev.chain()->root, &e, b.get());
            wickr_ecdsa_result_destroy(&c->node->signature);
            c->node->signature = s;
            return "signature over other data";
        }
        case 8: { // the genuine signature re-made
            auto *s = wickr_identity_sign(x.dev.chain()->root, &e, c->node->sig_key->pub_data);
            wickr_ecdsa_result_destroy(&c->node->signature);
            c->node->signature = s;
            return "signed again by some root";
        }
        case 9: flip(c->node->identifier); return "flip device identifier (not signed)";
        case 10: if (c->node->signature) c->node->signature->digest_mode = r.pick({ DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 }); return "claim another digest";
        case 11: { auto *p = wickr_identity_copy(c->root); auto *q = wickr_identity_copy(c->node); wickr_identity_destroy(&c->root); wickr_identity_destroy(&c->node); c->root = q; c->node = p; c->root->type = IDENTITY_TYPE_ROOT; c->node->type = IDENTITY_TYPE_NODE; return "swap root and device"; }
        default: { auto *p = wickr_identity_copy(x.dev.chain()->root), *q = wickr_identity_copy(x.dev.chain()->node); wickr_identity_destroy(&c->root); wickr_identity_destroy(&c->node); c->root = p; c->node = q; return "replace both"; }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    auto c = own(wickr_identity_chain_copy(W[r.below(W.size())].dev.chain()));
    std::string hist;
    int steps = (int)r.range(3, 10);
    for (int s = 0; s < steps; s++) {
        if (s) { std::string w = edit(r, c.get(), W[r.below(W.size())]); hist += (hist.empty() ? "" : "; ") + w; distinct(w); ev("edits"); }
        if (r.chance(1, 4)) { c = own(wickr_identity_chain_copy(c.get())); hist += "; copied"; }
        if (r.chance(1, 4)) { c = roundtrip(r, std::move(c)); hist += "; serialized"; }
        bool want = ref_chain_ok(c.get());
        int reps = (int)r.range(1, 3);
        for (int q = 0; q < reps; q++) {
            bool got = wickr_identity_chain_validate(c.get(), &e);
            EXPECT(got == want, want ? "valid-chain-refused" : "invalid-chain-accepted", "chain validity is %d, the current signature says %d (answer %d) after: %s", got, want, q, hist.c_str());
            ev(want ? "chain_valid" : "chain_invalid");
        }
        distinct(fmt("%d", want) + hist.substr(hist.size() > 60 ? hist.size() - 60 : 0));
    }
    if (k < 4) sample(hist);
    // ephemeral keys: owned exactly by the signer
    for (int q = 0; q < 3; q++) {
        Actor &x = W[r.below(W.size())], &y = W[r.below(W.size())];
        auto kp = gen_eph(x.dev, gen_u64(r));
        std::string h = "fresh";
        switch (r.below(7)) {
            case 0: kp->signature->sig_data->bytes[r.below(kp->signature->sig_data->length)] ^= 1; h = "signature changed"; break;
            case 1: wickr_ecdsa_result_destroy(&kp->signature); h = "signature dropped"; break;
            case 2: { auto k2 = gen_eph(x.dev, 1); std::swap(k2->ec_key, kp->ec_key); h = "key exchanged"; break; }
            case 3: wickr_ephemeral_keypair_make_public(kp.get()); h = "made public"; break;
            case 4: { auto s2 = own(wickr_ephemeral_keypair_serialize(kp.get())); auto n2 = own(wickr_ephemeral_keypair_create_from_buffer(s2.get(), &e)); REQUIRE(n2, "roundtrip", "ephemeral key does not survive serialization"); kp = std::move(n2); h = "serialized"; break; }
            case 5: kp->identifier ^= 1; h = "identifier changed (not signed)"; break;
            default: break;
        }
        for (auto *o : { x.dev.chain()->node, x.dev.chain()->root, y.dev.chain()->node, y.pub->node }) {
            bool want = ref_eph_ok(kp.get(), o), got = wickr_ephemeral_keypair_verify_owner(kp.get(), &e, o);
            EXPECT(got == want, want ? "owner-refused" : "non-owner-accepted", "ephemeral key (%s): owned=%d expected %d", h.c_str(), got, want);
            ev(want ? "eph_owned" : "eph_not_owned");
        }
        distinct("eph " + h);
    }
    // device identities come only from a root identity, and are then owned by exactly that root
    {
        Actor &x = W[r.below(W.size())], &y = W[r.below(W.size())];
        auto id = mk(r.bytes(r.range(1, 127)));
        auto nope = own(wickr_node_identity_gen(&e, x.dev.chain()->node, id.get()));
        EXPECT(!nope, "device-made-device", "a device identity was allowed to own another device");
        auto ni = own(wickr_node_identity_gen(&e, x.dev.chain()->root, id.get()));
        REQUIRE(ni, "node-gen", "a root identity cannot make a device identity");
        EXPECT(ni->type == IDENTITY_TYPE_NODE && same(ni->identifier, id.get()), "node-gen", "new device identity has the wrong type or identifier");
        for (auto *o : { x.dev.chain()->root, y.dev.chain()->root }) {
            auto cc = own(wickr_identity_chain_create(wickr_identity_copy(o), wickr_identity_copy(ni.get())));
            bool want = ref_chain_ok(cc.get());
            EXPECT(wickr_identity_chain_validate(cc.get(), &e) == want && want == same_pub(o, x.dev.chain()->root), "node-gen", "new device identity: ownership by its root is %d", want);
        }
        ev("node_gen");
    }
}
void prop_fini() {}
}
