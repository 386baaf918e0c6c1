// C04: messages are sealed only to devices whose ownership chain is intact right now.
// A random history of edits is applied to live nodes; after every edit the library's decision is compared with the
// one an independent verifier takes from the current bytes.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C04";
static World W;
void prop_init() { Rng r(g_seed * 77 + 4); W.build(r, 7, plain_engine()); W.odd(r, 1); W.odd(r, 4); W.odd(r, 3, 32, 33); }

static std::string edit(Rng &r, wickr_node_t *n, size_t owner)
{
    wickr_crypto_engine_t e = plain_engine();
    size_t o = r.below(W.size());
    Actor &x = W[o];
    switch (r.below(16)) {
        case 0: { // rotate to a fresh key properly signed by this device
            auto k = gen_eph(W[owner].dev, gen_u64(r));
            wickr_ephemeral_keypair_make_public(k.get());
            if (r.chance(1, 2)) { wickr_node_rotate_keypair(n, k.get(), true); return "rotate(copy) to own key"; }
            wickr_node_rotate_keypair(n, k.release(), false);
            return "rotate to own key";
        }
        case 1: { // rotate to another device's key
            wickr_node_rotate_keypair(n, x.eph.get(), true);
            return fmt("rotate to key of device %zu (owner %zu)", o, owner);
        }
        case 2: { // key of this device with somebody else's signature
            auto k = gen_eph(W[owner].dev, 1);
            wickr_ecdsa_result_t *s = wickr_ecdsa_result_copy(x.eph->signature);
            wickr_ecdsa_result_destroy(&k->signature);
            k->signature = s;
            wickr_node_rotate_keypair(n, k.release(), false);
            return "rotate to own key with a foreign signature";
        }
        case 3: if (n->ephemeral_keypair) { wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); } return "drop the key signature";
        case 4: { // replace the whole identity chain
            wickr_identity_chain_t *c = wickr_identity_chain_copy(x.dev.chain());
            if (r.chance(1, 2)) wickr_identity_chain_validate(c, &e);    // that chain may carry its own remembered answer
            wickr_identity_chain_destroy(&n->id_chain);
            n->id_chain = c;
            return fmt("replace identity chain by device %zu's", o);
        }
        case 5: { // swap only the root
            wickr_identity_t *i = wickr_identity_copy(x.dev.chain()->root);
            wickr_identity_destroy(&n->id_chain->root);
            n->id_chain->root = i;
            return "replace root";
        }
        case 6: { // swap only the device identity
            wickr_identity_t *i = wickr_identity_copy(x.dev.chain()->node);
            wickr_identity_destroy(&n->id_chain->node);
            n->id_chain->node = i;
            return "replace device identity";
        }
        case 7: { wickr_buffer_t *b = n->id_chain->root->sig_key->pub_data; b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); return "flip a bit of the root key in place"; }
        case 8: { wickr_buffer_t *b = n->id_chain->node->sig_key->pub_data; b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); return "flip a bit of the device key in place"; }
        case 9: if (n->id_chain->node->signature) { wickr_buffer_t *b = n->id_chain->node->signature->sig_data; b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); } return "flip a bit of the device signature in place";
        case 10: if (n->ephemeral_keypair) { wickr_buffer_t *b = n->ephemeral_keypair->ec_key->pub_data; b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); } return "flip a bit of the ephemeral key in place";
        case 11: if (n->ephemeral_keypair && n->ephemeral_keypair->signature) { wickr_buffer_t *b = n->ephemeral_keypair->signature->sig_data; b->bytes[r.below(b->length)] ^= (uint8_t)(1u << r.below(8)); } return "flip a bit of the key signature in place";
        case 12: wickr_ecdsa_result_destroy(&n->id_chain->node->signature); return "drop the device signature";
        case 13: { // exchange the ephemeral key for another valid one of a sibling device or of this device: pointer swap
            wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_copy(x.eph.get());
            wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair);
            n->ephemeral_keypair = k;
            return fmt("assign ephemeral key of device %zu", o);
        }
        case 14: wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); return "remove the ephemeral key";
        default: { // back to an entirely genuine state, keeping whatever answer is remembered
            wickr_identity_chain_t *c = wickr_identity_chain_copy(W[owner].dev.chain());
            wickr_identity_chain_destroy(&n->id_chain);
            n->id_chain = c;
            wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_copy(W[owner].eph.get());
            wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair);
            n->ephemeral_keypair = k;
            return "restore genuine identity and key";
        }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    size_t si = r.below(W.size());
    wickr_ctx_t *sctx = W[si].ctx();
    sctx->pkt_enc_version = (uint8_t)r.range(2, 4);
    auto pl = make_payload(gen_payload(r, 500));
    size_t n = r.pick<size_t>({ 1, 1, 2, 3, 4 });
    bool large = k % 60 == 17;
    if (large) { n = k % 240 == 17 ? r.range(257, 290) : r.range(20, 140); ev("large_groups"); }
    std::vector<size_t> owner;
    std::vector<wickr_node_t *> nv;
    for (size_t i = 0; i < n; i++) { owner.push_back(r.below(W.size())); nv.push_back(wickr_node_copy(W[owner[i]].node.get())); }
    auto nodes = node_array(nv);
    std::string hist;
    int steps = large ? 2 : (int)r.range(2, 7);
    for (int s = 0; s < steps; s++) {
        if (s > 0 || r.chance(1, 3)) {
            size_t i = large && r.chance(1, 2) ? n - 1 - r.below(10) : r.below(n);
            std::string w = edit(r, wickr_node_array_fetch_item(nodes.get(), (uint32_t)i), owner[i]);
            hist += (hist.empty() ? "" : "; ") + fmt("node %zu: ", i) + w;
            ev("edits");
            distinct(w);
        }
        if (r.chance(1, 5)) { // carry on with a deep copy, remembered answers included
            NodeArr c(wickr_node_array_copy(nodes.get()));
            REQUIRE(c, "array-copy", "copying a recipient list failed");
            wickr_node_array_t *old = nodes.release();
            nodes = std::move(c);
            wickr_array_destroy(&old, true);
            hist += "; copied";
        }
        bool all = true;
        for (size_t i = 0; i < n; i++) {
            wickr_node_t *nd = wickr_node_array_fetch_item(nodes.get(), (uint32_t)i);
            bool want = ref_node_ok(nd);
            all = all && want;
            if (large ? r.chance(1, 20) : r.chance(1, 2)) {
                bool got = wickr_node_verify_signature_chain(nd, &e);
                EXPECT(got == want, want ? "valid-device-refused" : "invalid-device-accepted", "device ownership decision is %d, current keys say %d, after: %s", got, want, hist.c_str());
                ev(want ? "verified_valid" : "verified_invalid");
                if (r.chance(1, 3)) EXPECT(wickr_node_verify_signature_chain(nd, &e) == want, want ? "valid-device-refused" : "invalid-device-accepted", "second answer differs from the current keys after: %s", hist.c_str());
            }
        }
        auto enc = own(wickr_ctx_encode_packet(sctx, pl.get(), nodes.get()));
        if (all) { EXPECT(enc, "valid-device-refused", "sealing refused although every recipient is intact, after: %s", hist.c_str()); ev("sealed"); }
        else { EXPECT(!enc, "sealed-to-invalid-device", "sealed to a device whose ownership chain is broken, after: %s", hist.c_str()); ev("refused"); }
        distinct(fmt("%d/%zu/%d/", (int)all, n, s) + hist.substr(0, 60));
    }
    if (k < 4) sample(hist);
}
void prop_fini() {}
}
