// C01: every addressed device opens exactly the message that was sealed.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C01";
static World W;
static Actor *filler;
static World WF;
static std::vector<std::vector<H<wickr_ephemeral_keypair_t>>> extra;   // more ephemeral keys per device
void prop_init()
{
    Rng r(g_seed * 77 + 1);
    W.build(r, 9, plain_engine()); W.odd(r, 1); W.odd(r, 4); W.odd(r, 3, 32, 33);
    WF.build(r, 1, plain_engine());
    filler = &WF[0];
    for (auto &x : W.a) { extra.emplace_back(); for (int i = 0; i < 3; i++) extra.back().push_back(gen_eph(x.dev, gen_u64(r))); }
}
static void check_open(wickr_ctx_t *rc, const wickr_ctx_packet_t *cp, wickr_ec_key_t *key, const PayloadSpec &p, const Bytes &pk, int ver, const std::string &how)
{
    auto d = own(wickr_ctx_decode_packet(rc, cp, key));
    REQUIRE(d && d->err == E_SUCCESS, "open-failed", "%s: addressed device cannot open the message (err %d, version %d, %s)", how.c_str(), d ? (int)d->err : -1, ver, spec_str(p).c_str());
    std::string why;
    EXPECT(payload_matches(d->decrypted_payload, p, &why), "payload-differs", "%s: %s (version %d, %s)", how.c_str(), why.c_str(), ver, spec_str(p).c_str());
    EXPECT(d->payload_key && eq(d->payload_key->key_data, pk), "key-differs", "%s: message key differs from the sealed one", how.c_str());
    ev("opened");
}
void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    int ver = (int)r.range(2, 4);
    size_t si = r.below(W.size());
    wickr_ctx_t *sctx = W[si].ctx();
    sctx->pkt_enc_version = (uint8_t)ver;
    bool def = r.chance(1, 6);
    H<wickr_ctx_t> fresh;
    if (def) { // the version a context uses by default
        fresh = own(wickr_ctx_copy(sctx));
        REQUIRE(fresh, "ctx-copy", "copying a context failed");
        fresh->pkt_enc_version = 4;
        sctx = fresh.get();
        ver = sctx->pkt_enc_version;
    }
    PayloadSpec ps = gen_payload(r, k % 40 == 7 ? 400000 : 70000);
    if (k == 6) { ps.body = r.bytes((16u << 20) + r.range(1, 100000)); ev("message_over_16M"); }
    bool aimed = k % 3 == 1;
    if (aimed) ps.body = r.bytes(r.range(1, 3000));
    auto pl = make_payload(ps);
    size_t n = r.pick<size_t>({ 1, 1, 2, 2, 3, 4, 5, 7, 9 });
    struct To { size_t who; int key; };
    std::vector<To> to;
    std::vector<size_t> perm;
    for (size_t i = 0; i < W.size(); i++) perm.push_back(i);
    r.shuffle(perm);
    for (size_t i = 0; i < n; i++) to.push_back({ perm[i], (int)r.range(0, 3) - 1 });
    if (r.chance(1, 3)) { bool has = false; for (auto &t : to) if (t.who == si) has = true; if (!has) to[r.below(n)].who = si; }
    bool dup = r.chance(1, 10);
    if (dup) to.push_back(to[0]);                       // the same device listed twice with the same key
    // large groups: the devices that open the message sit anywhere among many others
    bool big = k % 40 == 11;
    if (big) {
        size_t want = k % 80 == 11 ? r.range(257, 300) : r.range(20, 140);
        std::vector<To> all;
        std::set<size_t> at;
        while (at.size() < to.size()) at.insert(r.chance(1, 2) ? want - 1 - r.below(44 < want ? 44 : want) : r.below(want));
        size_t j = 0;
        for (size_t i = 0; i < want; i++) all.push_back(at.count(i) ? to[j++] : To{ W.size(), -1 });
        to = all;
        aimed = false;
        ev("large_group");
        if (want > 256) ev("group_over_256");
    }
    // other devices whose identifiers resemble those of the ones that will open the message
    if (!big && r.chance(1, 5)) { int m = (int)r.range(1, 3); while (m--) to.insert(to.begin() + r.below(to.size() + 1), To{ W.size(), -1 }); ev("similar_identifiers"); }
    std::vector<wickr_node_t *> nv;
    for (auto &t : to) {
        wickr_node_t *c = wickr_node_copy((t.who < W.size() ? W[t.who] : *filler).node.get());
        REQUIRE(c, "node-copy", "copying a node failed");
        if (t.who >= W.size() && r.chance(2, 3)) {
            Bytes id = W[perm[r.below(n)]].dev.node_id;
            switch (r.below(5)) {
                case 0: id.back() ^= (uint8_t)(1u << r.below(8)); break;
                case 1: id[0] ^= (uint8_t)(1u << r.below(8)); break;
                case 2: id.pop_back(); break;
                case 3: id.push_back((uint8_t)r.below(2)); break;
                default: id[r.below(id.size())] ^= (uint8_t)(1u << r.below(8));
            }
            wickr_buffer_destroy(&c->id_chain->node->identifier);
            c->id_chain->node->identifier = mkp(id);
        }
        if (t.key >= 0) {
            wickr_ephemeral_keypair_t *kp = wickr_ephemeral_keypair_copy(extra[t.who][t.key].get());
            wickr_ephemeral_keypair_make_public(kp);
            REQUIRE(wickr_node_rotate_keypair(c, kp, false), "rotate", "replacing the ephemeral key of a node failed");
        }
        nv.push_back(c);
    }
    auto nodes = node_array(nv);
    if (aimed) {
        // total packet lengths at and around multiples of block sizes
        auto probe = own(wickr_ctx_encode_packet(sctx, pl.get(), nodes.get()));
        REQUIRE(probe && probe->packet, "seal-failed", "sealing failed for %zu valid recipients (version %d, %s)", to.size(), ver, spec_str(ps).c_str());
        auto pb = own(wickr_packet_serialize(probe->packet));
        REQUIRE(pb, "serialize", "serializing a sealed packet failed");
        size_t unit = r.pick<size_t>({ 4096, 4096, 4096, 1024, 512, 256, 1000, 65536 });
        size_t target = (pb->length / unit + 1 + r.below(unit < 4096 ? 3 : 1)) * unit + r.pick<size_t>({ 0, 0, 0, 1, unit - 1 });
        size_t more = target - pb->length;
        ps.body.resize(ps.body.size() + more, (uint8_t)k);
        for (int i = 0; i < 2; i++) {           // length prefixes may have grown
            pl = make_payload(ps);
            probe = own(wickr_ctx_encode_packet(sctx, pl.get(), nodes.get()));
            REQUIRE(probe && probe->packet, "seal-failed", "sealing failed for %zu valid recipients (version %d, %s)", to.size(), ver, spec_str(ps).c_str());
            pb = own(wickr_packet_serialize(probe->packet));
            if (pb->length == target) break;
            if (pb->length > target) ps.body.resize(ps.body.size() - std::min(ps.body.size() - 1, pb->length - target));
            else ps.body.resize(ps.body.size() + (target - pb->length), 1);
        }
        pl = make_payload(ps);
        if (pb->length == target) { ev("aimed_length"); if (target % 4096 == 0) ev("length_multiple_of_4096"); }
    }
    std::string s0 = snap(sctx), s1 = snap(pl.get()), s2;
    for (size_t i = 0; i < to.size(); i++) s2 += snap(wickr_node_array_fetch_item(nodes.get(), (uint32_t)i));

    auto enc = own(wickr_ctx_encode_packet(sctx, pl.get(), nodes.get()));
    REQUIRE(enc && enc->packet && enc->packet_key, "seal-failed", "sealing failed for %zu valid recipients (version %d, %s)", to.size(), ver, spec_str(ps).c_str());
    EXPECT(enc->packet->version == ver, "version", "packet carries version %d, context asked for %d", enc->packet->version, ver);
    std::string t2;
    for (size_t i = 0; i < to.size(); i++) t2 += snap(wickr_node_array_fetch_item(nodes.get(), (uint32_t)i));
    EXPECT(snap(sctx) == s0, "input-changed", "sealing changed the sending context");
    EXPECT(snap(pl.get()) == s1, "input-changed", "sealing changed the payload");
    EXPECT(t2 == s2, "input-changed", "sealing changed the recipients");
    Bytes pk = B(enc->packet_key->key_data);
    auto ser = own(wickr_packet_serialize(enc->packet));
    REQUIRE(ser, "serialize", "serializing a sealed packet failed");
    auto cp2 = own(wickr_packet_copy(enc->packet));
    auto ser2 = own(wickr_packet_serialize(cp2.get()));
    EXPECT(same(ser.get(), ser2.get()), "copy-differs", "a copied packet serializes differently");
    ev("sealed");
    ev(fmt("sealed_v%d", ver).c_str());
    distinct(fmt("v%d n%zu self%d dup%d body%zu tag%zu", ver, to.size(), (int)std::any_of(to.begin(), to.end(), [&](To &t) { return t.who == si; }), dup, ps.body.size(), ps.tag.size()));
    if (k < 4) sample(fmt("version %d, %zu recipients, %s, packet %zu bytes", ver, to.size(), spec_str(ps).c_str(), ser->length));

    View wire(B(ser));
    std::set<size_t> seen;
    size_t opened = 0;
    for (auto &t : to) {
        if (t.who >= W.size() || !seen.insert(t.who).second) continue;
        if (opened++ >= 9) break;
        Actor &x = W[t.who];
        wickr_ec_key_t *key = t.key >= 0 ? extra[t.who][t.key]->ec_key : x.eph->ec_key;
        // the receiver knows the sender through its public chain, or (its own device) through the private one
        const wickr_identity_chain_t *sid = r.chance(1, 4) ? W[si].dev.chain() : W[si].pub.get();
        H<wickr_ctx_t> rcopy;
        wickr_ctx_t *rc = x.ctx();
        if (r.chance(1, 4)) { rcopy = own(wickr_ctx_copy(rc)); REQUIRE(rcopy, "ctx-copy", "copying a context failed"); rc = rcopy.get(); }
        rc->pkt_enc_version = (uint8_t)r.range(2, 4);   // the receiver's own preference must not matter
        std::string r0 = snap(rc), r1 = snap(sid), r2 = snap(key);
        const wickr_buffer_t *in = wire;
        int mode = (int)r.below(4);
        H<wickr_ctx_packet_t> cp;
        std::string how;
        if (mode == 3) {
            cp = own(wickr_ctx_stateless_parse_packet(&e, rc->id_chain->node->identifier, in, sid));
            how = "stateless parse";
        } else {
            cp = own(wickr_ctx_parse_packet(rc, in, sid));
            how = "parse";
        }
        REQUIRE(cp && cp->parse_result, "parse-failed", "%s returned nothing (version %d)", how.c_str(), ver);
        REQUIRE(cp->parse_result->err == E_SUCCESS && cp->parse_result->signature_status == PACKET_SIGNATURE_VALID, "parse-failed", "%s by an addressed device: err %d, signature status %d (version %d, %zu recipients)", how.c_str(), cp->parse_result->err, cp->parse_result->signature_status, ver, to.size());
        EXPECT(cp->parse_result->key_exchange && eq(cp->parse_result->key_exchange->exchange_id, x.dev.node_id), "wrong-exchange", "%s found another device's exchange", how.c_str());
        EXPECT(cp->parse_result->key_exchange && cp->parse_result->key_exchange->key_id == (t.key >= 0 ? extra[t.who][t.key]->identifier : x.kid), "wrong-key-id", "%s reports another ephemeral key identifier than the one addressed", how.c_str());
        EXPECT(cp->parse_result->key_exchange_set && wickr_array_get_item_count(cp->parse_result->key_exchange_set->exchanges) == to.size(), "recipient-count", "header lists %u exchanges for %zu recipients", cp->parse_result->key_exchange_set ? wickr_array_get_item_count(cp->parse_result->key_exchange_set->exchanges) : 0, to.size());
        EXPECT(same_pub(cp->sender, sid), "sender-differs", "the parsed packet names another sender");
        EXPECT(same(cp->packet, enc->packet), "packet-differs", "the parsed packet differs from the sealed one");
        ev("parsed");
        check_open(rc, cp.get(), key, ps, pk, ver, how);
        if (r.chance(1, 3)) check_open(rc, cp.get(), key, ps, pk, ver, how + ", opened a second time");
        if (mode == 1) {
            auto pr = own(wickr_parse_result_copy(cp->parse_result));
            REQUIRE(pr, "copy-failed", "copying a parse result failed");
            auto d = own(wickr_decode_result_from_parse_result(cp2.get(), &e, pr.get(), rc->dev_info->msg_proto_id, key, rc->id_chain, sid));
            REQUIRE(d && d->err == E_SUCCESS, "open-failed", "two-step decode of copies failed (version %d)", ver);
            auto d2 = own(wickr_decode_result_copy(d.get()));
            EXPECT(d2 && payload_matches(d2->decrypted_payload, ps) && d2->payload_key && eq(d2->payload_key->key_data, pk), "payload-differs", "copy of a decode result differs");
            ev("two_step");
        }
        if (mode == 2) {
            // inspecting without decoding first must not disturb anything
            auto nd = own(wickr_ctx_parse_packet_no_decode(rc, in, sid));
            EXPECT(nd && nd->parse_result && nd->parse_result->err == E_SUCCESS && nd->parse_result->signature_status == PACKET_SIGNATURE_VALID && !nd->parse_result->key_exchange, "inspect", "inspecting a valid packet reports a failure");
            check_open(rc, cp.get(), key, ps, pk, ver, "after inspection");
        }
        EXPECT(snap(rc) == r0 && snap(sid) == r1 && snap(key) == r2, "input-changed", "opening changed the receiving context, sender or key");
        EXPECT(B(in) == B(ser), "input-changed", "opening changed the packet bytes");
        if (t.who == si) ev("opened_by_sender");
    }
}
void prop_fini() {}
}
