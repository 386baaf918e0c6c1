// C05: message wire formats interoperate with an independent implementation.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C05";
static World W;
void prop_init() { Rng r(g_seed * 77 + 5); W.build(r, 7, plain_engine()); W.odd(r, 1); W.odd(r, 4); W.odd(r, 3, 32, 33); }
static bool spec_eq(const PayloadSpec &a, const PayloadSpec &b) { return a.body == b.body && a.ttl == b.ttl && a.bor == b.bor && a.type == b.type && a.has_tag == b.has_tag && (!a.has_tag || a.tag == b.tag); }

static void lib_to_ref(uint64_t k, Rng &r)
{
    int ver = (int)r.range(2, 4);
    Actor &S = W[r.below(W.size())];
    std::vector<size_t> p;
    for (size_t i = 0; i < W.size(); i++) p.push_back(i);
    r.shuffle(p);
    size_t n = k % 24 == 2 ? r.range(20, 280) : r.range(1, 5);
    std::vector<const Actor *> to;
    for (size_t i = 0; i < n; i++) to.push_back(&W[p[n > W.size() ? r.below(W.size()) : i]]);
    if (n > 20) ev("large_groups");
    PayloadSpec ps = gen_payload(r, k % 20 == 3 ? 100000 : 2000);
    auto pl = make_payload(ps);
    auto nodes = nodes_for(to);
    S.ctx()->pkt_enc_version = (uint8_t)ver;
    auto enc = own(wickr_ctx_encode_packet(S.ctx(), pl.get(), nodes.get()));
    REQUIRE(enc, "seal-failed", "sealing failed (version %d, %s)", ver, spec_str(ps).c_str());
    auto ser = own(wickr_packet_serialize(enc->packet));
    Bytes w = B(ser);
    std::set<const Actor *> tried;
    for (auto *x : to) {
        if (!tried.insert(x).second) continue;
        ref::Opened o;
        std::string err = ref::open(w, S.dev.root_id, B(S.pub->root->sig_key->pub_data), S.dev.node_id, B(S.pub->node->sig_key->pub_data), recip(*x), B(x->eph->ec_key->pri_data), o);
        REQUIRE(err.empty(), "independent-cannot-open", "version %d: the independent implementation cannot open the library's packet: %s", ver, err.c_str());
        EXPECT(spec_eq(o.p, ps), "independent-differs", "version %d: the independent implementation reads another payload", ver);
        EXPECT(o.key == B(enc->packet_key->key_data), "independent-differs", "version %d: the independent implementation finds another message key", ver);
        REQUIRE(o.ex.size() == n, "independent-differs", "header lists %zu exchanges, %zu recipients", o.ex.size(), n);
        ev("ref_opened");
    }
    // exact layout: our own writer reproduces the bytes from the parts
    ref::Split s;
    REQUIRE(ref::split(w, s), "layout", "frame");
    EXPECT(ref::enc_packet(s.hdr, s.pl) == s.content, "layout", "version %d: content is not exactly header then payload", ver);
    EXPECT(w[0] == ver && (ver == 2 ? (w[1] & 15) : w[1]) == EC_CURVE_NIST_P521.identifier, "layout", "frame bytes %02x %02x", w[0], w[1]);
    Bytes der;
    EXPECT(ref::sig_unblock(s.sigblk, der) && ref::sig_block(der) == s.sigblk, "layout", "signature block is not canonical");
    ref::Opened o;
    Bytes h;
    REQUIRE(ref::gcm_unbox(ref::header_key(S.dev.root_id, S.dev.node_id), s.hdr, h) && ref::open_header(s, ref::header_key(S.dev.root_id, S.dev.node_id), o).empty(), "layout", "header");
    std::vector<std::tuple<Bytes, uint64_t, Bytes>> l;
    for (size_t i = 0; i < o.ex.size(); i++) {
        l.emplace_back(o.ex[i].id, o.ex[i].kid, o.ex[i].data);
        EXPECT(o.ex[i].id == to[i]->dev.node_id && o.ex[i].kid == to[i]->kid, "layout", "exchange %zu is out of order or mislabelled", i);
        EXPECT(o.ex[i].data.size() == 17 + 33, "layout", "exchange is %zu bytes", o.ex[i].data.size());
    }
    EXPECT(ref::enc_header(o.exch_pub, l) == h, "layout", "version %d: header bytes differ from the documented layout", ver);
    Bytes plain;
    REQUIRE(ref::gcm_unbox(B(enc->packet_key->key_data), s.pl, plain), "layout", "payload");
    EXPECT(plain == ref::enc_payload(ps) || (ps.bor == 0 && plain == ref::enc_payload(ps, false)), "layout", "version %d: payload bytes differ from the documented layout", ver);
    ev("lib_to_ref");
    distinct(fmt("L v%d n%zu b%zu t%zu", ver, n, ps.body.size(), ps.tag.size()));
}
static void ref_to_lib(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    int ver = (int)r.range(2, 4);
    ref::Chain c = ref::gen_chain(r, r.chance(3, 4) ? 32 : r.range(1, 127));
    auto chain = lib_chain(c, e, false);
    REQUIRE(chain, "chain", "the library cannot read an independently made identity chain");
    std::vector<ref::Recip> to;
    std::vector<Actor *> who;
    std::vector<size_t> p;
    for (size_t i = 0; i < W.size(); i++) p.push_back(i);
    r.shuffle(p);
    size_t n = k % 24 == 4 ? r.range(20, 280) : r.range(1, 5);
    for (size_t i = 0; i < n; i++) { Actor *x = &W[p[n > W.size() ? r.below(W.size()) : i]]; who.push_back(x); to.push_back(recip(*x)); }
    if (n > 20) ev("large_groups");
    PayloadSpec ps = gen_payload(r, k % 20 == 3 ? 100000 : 2000);
    bool old = r.chance(1, 4);              // writers that omit the optional fields
    if (old) { ps.bor = 0; ps.type = 0; }
    Bytes raw = ref::enc_payload(ps, !old, true);
    auto s = ref::seal(r, ver, c.root.id, c.root.key.pub, c.node.id, c.node.key.der, to, ps, &raw);
    bool nibble = ver == 2 && r.chance(1, 3);   // version 2 writers may use the upper half of the curve byte
    if (nibble) { s.packet[1] |= (uint8_t)(r.range(1, 15) << 4); ev("version2_upper_half"); }
    View w(s.packet);
    std::set<Actor *> tried;
    for (size_t i = 0; i < n; i++) {
        if (!tried.insert(who[i]).second) continue;
        auto cp = own(wickr_ctx_parse_packet(who[i]->ctx(), w, chain.get()));
        REQUIRE(cp && cp->parse_result && cp->parse_result->err == E_SUCCESS, "library-cannot-open", "version %d: the library cannot parse an independent packet (err %d)", ver, cp && cp->parse_result ? (int)cp->parse_result->err : -1);
        auto d = own(wickr_ctx_decode_packet(who[i]->ctx(), cp.get(), who[i]->eph->ec_key));
        REQUIRE(d && d->err == E_SUCCESS, "library-cannot-open", "version %d: the library cannot open an independent packet (err %d)", ver, d ? (int)d->err : -1);
        std::string why;
        EXPECT(payload_matches(d->decrypted_payload, ps, &why), "library-differs", "version %d: %s", ver, why.c_str());
        EXPECT(eq(d->payload_key->key_data, s.payload_key), "library-differs", "version %d: message key differs", ver);
        auto again = own(wickr_packet_serialize(cp->packet));
        EXPECT(nibble ? again && again->length == s.packet.size() : eq(again.get(), s.packet), "reencode", "version %d: re-serialized packet differs", ver);
        ev("lib_opened");
    }
    ev("ref_to_lib");
    distinct(fmt("R v%d n%zu b%zu old%d", ver, n, ps.body.size(), old));
}
static void versions(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    Actor &S = W[r.below(W.size())], &R = W[r.below(W.size())];
    auto nodes = nodes_for({ &R });
    PayloadSpec ps = gen_payload(r, 100);
    auto pl = make_payload(ps);
    auto cc = own(wickr_ctx_copy(S.ctx()));
    for (int q = 0; q < 6; q++) {
        int ver = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? 5 : q == 3 ? 255 : (int)r.range(5, 255);
        cc->pkt_enc_version = (uint8_t)ver;
        auto enc = own(wickr_ctx_encode_packet(cc.get(), pl.get(), nodes.get()));
        EXPECT(!enc, "unsupported-version", "sealed a packet of unsupported version %d", ver);
        for (int kv = 2; kv <= 4; kv++) {
            auto s = ref::seal(r, kv, S.dev.root_id, B(S.pub->root->sig_key->pub_data), S.dev.node_id, B(S.dev.chain()->node->sig_key->pri_data), { recip(R) }, ps);
            Bytes m = s.packet;
            m[0] = (uint8_t)ver;
            View w(m);
            auto cp = own(wickr_ctx_parse_packet(R.ctx(), w, S.pub.get()));
            EXPECT(!cp || !cp->parse_result || cp->parse_result->err != E_SUCCESS, "unsupported-version", "parsed a packet of unsupported version %d", ver);
            auto pp = own(wickr_packet_create_from_buffer(w));
            EXPECT(!pp, "unsupported-version", "accepted a packet of unsupported version %d", ver);
            m = s.packet;
            m[1] = (uint8_t)r.range(1, kv == 2 ? 15 : 255);
            View w2(m);
            auto p2 = own(wickr_packet_create_from_buffer(w2));
            EXPECT(!p2, "unknown-curve", "version %d: accepted an unknown signature curve %02x", kv, m[1]);
            ev("version_refusals", 3);
        }
        distinct(fmt("V%d", ver));
    }
}
// the exchange primitives with a pre-shared key
static void exchange(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    int ver = (int)r.range(2, 4);
    Actor &S = W[r.below(W.size())], &R = W[r.below(W.size())];
    auto ek = own(e.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
    Bytes psk = r.bytes(r.range(1, 80)), data = gen_bytes(r, 500);
    bool use = r.chance(2, 3), gcm = r.chance(1, 2);
    auto pb = mk(psk);
    auto db = mk(data);
    auto ex = own(wickr_key_exchange_create_with_data(&e, S.pub.get(), R.node.get(), ek.get(), db.get(), gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, use ? pb.get() : NULL, (uint8_t)ver));
    REQUIRE(ex, "exchange", "making an exchange failed");
    Bytes x;
    ref::ecdh(B(R.eph->ec_key->pri_data), B(ek->pub_data), x);
    Bytes kk = ref::hkdf(ver == 4 ? 512 : 256, x, use ? psk : Bytes(), ref::exch_info(ver, B(S.pub->root->sig_key->pub_data), B(R.pub->root->sig_key->pub_data), R.dev.dev_id), 32);
    auto ser = own(wickr_cipher_result_serialize(ex->exchange_ciphertext));
    Bytes w = B(ser), pt;
    bool ok;
    if (gcm) ok = ref::gcm_unbox(kk, w, pt);
    else { ok = w.size() > 17 && w[0] == 1; if (ok) pt = ref::ctr(kk, sub(w, 1, 16), sub(w, 17)); }
    EXPECT(ok && pt == data, "exchange-differs", "version %d: exchange (psk %d, gcm %d) does not match the documented derivation", ver, use, gcm);
    EXPECT(eq(ex->exchange_id, R.dev.node_id) && ex->key_id == R.kid, "exchange-differs", "exchange is labelled wrong");
    auto rn = own(wickr_node_create(wickr_buffer_copy(R.node->dev_id), wickr_identity_chain_copy(R.pub.get()), wickr_ephemeral_keypair_copy(R.eph.get())));
    auto back = own(wickr_key_exchange_derive_data(&e, S.pub.get(), rn.get(), ek.get(), ex.get(), use ? pb.get() : NULL, (uint8_t)ver));
    EXPECT(back && eq(back.get(), data), "exchange-differs", "version %d: exchange does not open", ver);
    auto bad = own(wickr_key_exchange_derive_data(&e, S.pub.get(), rn.get(), ek.get(), ex.get(), use ? NULL : pb.get(), (uint8_t)ver));
    EXPECT(!bad || !eq(bad.get(), data) || data.size() < 4, "psk-ignored", "version %d: exchange opens without the right pre-shared key", ver);
    if (gcm) EXPECT(!bad, "psk-ignored", "version %d: authenticated exchange opens without the right pre-shared key", ver);
    ev("exchanges");
    distinct(fmt("X v%d %d%d %zu %zu", ver, use, gcm, data.size(), psk.size()));
}
void prop_case(uint64_t k, Rng &r)
{
    switch (k % 8) {
        case 0: case 1: case 2: lib_to_ref(k, r); break;
        case 3: case 4: case 5: ref_to_lib(k, r); break;
        case 6: exchange(k, r); break;
        default: if (k % 32 == 7) versions(k, r); else exchange(k, r);
    }
    if (k < 4) sample(fmt("case %d", (int)k));
}
void prop_fini() {}
}
