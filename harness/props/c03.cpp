// C03: only addressed devices can open a message, and nothing leaks in clear.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C03";
static World W;
static std::vector<H<wickr_ephemeral_keypair_t>> oldk;
void prop_init() { Rng r(g_seed * 77 + 3); W.build(r, 8, mon_engine()); W.odd(r, 1); W.odd(r, 4); W.odd(r, 3, 32, 33); for (auto &x : W.a) oldk.push_back(gen_eph(x.dev, 9)); }
static void no_open(wickr_decode_result_t *d, const char *what, int ver)
{
    EXPECT(!d || (d->err != E_SUCCESS && !d->decrypted_payload && !d->payload_key), "opened-by-outsider", "version %d: %s opened the message", ver, what);
    ev("outsider_refused");
    distinct(fmt("v%d ", ver) + what);
}
void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    int ver = (int)r.range(2, 4);
    std::vector<size_t> p;
    for (size_t i = 0; i < W.size(); i++) p.push_back(i);
    r.shuffle(p);
    size_t n = r.range(1, 4);
    Actor &S = W[p[n]], &O = W[p[n + 1]];      // sender and outsider
    std::vector<const Actor *> to;
    for (size_t i = 0; i < n; i++) to.push_back(&W[p[i]]);
    size_t total = k % 25 == 6 ? r.range(30, 280) : n;
    std::vector<const Actor *> uniq = to;
    while (to.size() < total) to.push_back(uniq[r.below(n)]);
    if (total > n) { r.shuffle(to); ev("large_groups"); }
    PayloadSpec ps = gen_payload(r, 400);
    ps.body = r.bytes(r.range(12, 400));
    ps.tag = r.bytes(r.range(12, 64));
    auto pl = make_payload(ps);
    auto nodes = nodes_for(to);
    S.ctx()->pkt_enc_version = (uint8_t)ver;
    mon().reset();
    mon().record = true;
    auto enc = own(wickr_ctx_encode_packet(S.ctx(), pl.get(), nodes.get()));
    mon().record = false;
    REQUIRE(enc, "seal-failed", "sealing failed");
    ev("sealed");
    auto ser = own(wickr_packet_serialize(enc->packet));
    Bytes w = B(ser), pk = B(enc->packet_key->key_data);

    // ---- nothing in clear
    auto clear = [&](const Bytes &needle, const char *what) { EXPECT(!contains(w, needle), "clear", "version %d: the packet contains %s in clear", ver, what); ev("clear_scans"); };
    for (size_t i = 0; i + 8 <= ps.body.size(); i += 8) EXPECT(!contains(w, sub(ps.body, i, 8)), "clear", "the packet contains part of the body in clear");
    for (size_t i = 0; i + 8 <= ps.tag.size(); i += 4) EXPECT(!contains(w, sub(ps.tag, i, 8)), "clear", "the packet contains part of the channel tag in clear");
    for (size_t i = 0; i + 8 <= pk.size(); i += 4) EXPECT(!contains(w, sub(pk, i, 8)), "clear", "the packet contains part of the message key in clear");
    for (auto *x : uniq) {
        if (x->dev.node_id.size() >= 8) clear(x->dev.node_id, "a recipient's device identifier");
        if (x->dev.root_id.size() >= 8) clear(x->dev.root_id, "a recipient's root identifier");
        clear(x->dev.dev_id, "a recipient's device id");
        clear(sub(B(x->eph->ec_key->pub_data), 8, 24), "a recipient's ephemeral key");
        clear(sub(B(x->dev.chain()->node->sig_key->pub_data), 8, 24), "a recipient's device key");
    }
    if (S.dev.node_id.size() >= 8) clear(S.dev.node_id, "the sender's device identifier");
    if (S.dev.root_id.size() >= 8) clear(S.dev.root_id, "the sender's root identifier");
    // every secret the engine handled while sealing
    for (auto &c : mon().calls) {
        if (c.op == OP_KEYRAND) clear(c.out, "a generated key");
        if (c.op == OP_ECDH) clear(c.out, "a shared secret");
        if (c.op == OP_ENC) {
            clear(c.key, "an encryption key");
            for (size_t i = 0; i + 16 <= c.in.size(); i += 16) EXPECT(!contains(w, sub(c.in, i, 16)), "clear", "the packet contains a block of something that was to be encrypted");
            ev("encryptions_seen");
        }
        if (c.op == OP_ECRAND && c.out.size() > 80) clear(sub(c.out, 8, 64), "a private exchange key");
    }
    // ---- the header opens with the documented key only
    ref::Split s;
    REQUIRE(ref::split(w, s), "frame", "cannot split the packet");
    Bytes good = ref::header_key(S.dev.root_id, S.dev.node_id), pt;
    EXPECT(ref::gcm_unbox(good, s.hdr, pt), "header-key", "version %d: the header does not open with the key of the sender's identifiers", ver);
    // with the right key the recipient list is what was asked for, so the header is where the routing data lives
    for (auto *x : uniq) EXPECT(contains(pt, x->dev.node_id), "header-content", "a recipient is missing from the header");
    {
        ref::Opened o;
        REQUIRE(ref::open_header(s, good, o).empty(), "header-content", "the header cannot be read");
        std::multiset<Bytes> got, want;
        for (auto &x : o.ex) got.insert(x.id);
        for (auto *x : to) want.insert(x->dev.node_id);
        EXPECT(got == want, "header-content", "the header lists %zu devices, not exactly the %zu addressed ones", got.size(), want.size());
        // every exchange can be opened by the key of the device it names, and by that only
        for (size_t i = 0; i < o.ex.size() && i < to.size(); i++) {
            if (o.ex.size() > 8 && !r.chance(1, 10)) continue;
            for (auto *x : uniq) {
                Bytes sec, kp;
                ref::ecdh(B(x->eph->ec_key->pri_data), o.exch_pub, sec);
                Bytes kk = ref::hkdf(ver == 4 ? 512 : 256, sec, Bytes(), ref::exch_info(ver, B(S.pub->root->sig_key->pub_data), B(x->pub->root->sig_key->pub_data), x->dev.dev_id), 32);
                const Bytes &xd = o.ex[i].data;
                if (xd.size() == 50) kp = ref::ctr(kk, sub(xd, 1, 16), sub(xd, 17));
                bool opens = kp.size() == 33 && sub(kp, 1) == pk;
                EXPECT(opens == (o.ex[i].id == x->dev.node_id), "exchange-holder", "version %d: the exchange naming one device %s the key of another (%zu devices)", ver, opens ? "opens with" : "does not open with", to.size());
                ev("exchanges_checked");
            }
        }
    }
    for (auto &bad : { ref::header_key(S.dev.node_id, S.dev.root_id), ref::header_key(S.dev.root_id, Bytes()), ref::header_key(Bytes(), S.dev.node_id), ref::header_key(S.dev.node_id, S.dev.node_id), ref::header_key(S.dev.root_id, S.dev.root_id),
                       ref::header_key(S.dev.root_id, O.dev.node_id), ref::header_key(O.dev.root_id, S.dev.node_id), ref::header_key(O.dev.root_id, O.dev.node_id), Bytes(32, 0), pk,
                       ref::sha(256, S.dev.dev_id), ref::sha(256, B(S.dev.chain()->node->sig_key->pub_data)) }) {
        if (bad == good) continue;
        Bytes x;
        EXPECT(!ref::gcm_unbox(bad, s.hdr, x), "header-open", "version %d: the header opens with a key other than the sender's header key", ver);
        EXPECT(!ref::gcm_unbox(bad, s.pl, x) || bad == pk, "payload-open", "version %d: the payload opens with a guessable key", ver);
        ev("wrong_header_keys");
    }
    // ---- who cannot open it
    View wire(w);
    // 1. a device that was not addressed
    auto cp = own(wickr_ctx_parse_packet(O.ctx(), wire, S.pub.get()));
    EXPECT(!cp || !cp->parse_result || cp->parse_result->err != E_SUCCESS, "outsider-parsed", "version %d: parsing succeeds for a device that was not addressed", ver);
    if (cp) EXPECT(!cp->parse_result || !cp->parse_result->key_exchange, "outsider-parsed", "an exchange was returned to a device that was not addressed");
    if (cp) no_open(own(wickr_ctx_decode_packet(O.ctx(), cp.get(), O.eph->ec_key)).get(), "a device that was not addressed", ver);
    // 2. the outsider uses everything public: each exchange in the header, its own keys
    Actor &R = W[p[0]];
    auto rp = own(wickr_ctx_parse_packet(R.ctx(), wire, S.pub.get()));
    REQUIRE(rp && rp->parse_result && rp->parse_result->err == E_SUCCESS, "parse-failed", "the addressed device cannot parse");
    for (auto *key : { O.eph->ec_key, O.dev.chain()->node->sig_key, O.dev.chain()->root->sig_key, S.eph->ec_key, S.dev.chain()->node->sig_key, S.dev.chain()->root->sig_key }) {
        no_open(own(wickr_ctx_decode_packet(O.ctx(), rp.get(), key)).get(), "an outsider using another device's exchange", ver);
        no_open(own(wickr_ctx_decode_packet(R.ctx(), rp.get(), key)).get(), "the addressed device with a foreign key", ver);
    }
    // 3. the addressed device with another key of its own
    no_open(own(wickr_ctx_decode_packet(R.ctx(), rp.get(), oldk[p[0]]->ec_key)).get(), "the addressed device with another ephemeral key", ver);
    no_open(own(wickr_ctx_decode_packet(R.ctx(), rp.get(), R.dev.chain()->node->sig_key)).get(), "the addressed device with its identity key", ver);
    { auto pub = own(wickr_ec_key_copy(R.eph->ec_key)); wickr_buffer_destroy(&pub->pri_data); no_open(own(wickr_ctx_decode_packet(R.ctx(), rp.get(), pub.get())).get(), "the public half of the addressed key", ver); }
    // 4. the right key in the hands of another device or account
    {
        auto d = own(wickr_decode_result_from_parse_result(rp->packet, &e, rp->parse_result, O.ctx()->dev_info->msg_proto_id, R.eph->ec_key, R.ctx()->id_chain, S.pub.get()));
        no_open(d.get(), "another device id with the right key", ver);
        if (ver > 2) {
            auto c2 = own(wickr_identity_chain_copy(R.ctx()->id_chain));
            wickr_ec_key_destroy(&c2->root->sig_key);
            Actor *far = nullptr;
            for (auto &y : W.a) if (y.account != R.account) far = &y;
            c2->root->sig_key = wickr_ec_key_copy(far->dev.chain()->root->sig_key);
            d = own(wickr_decode_result_from_parse_result(rp->packet, &e, rp->parse_result, R.ctx()->dev_info->msg_proto_id, R.eph->ec_key, c2.get(), S.pub.get()));
            no_open(d.get(), "another root identity with the right key", ver);
            auto s2 = own(wickr_identity_chain_copy(S.pub.get()));
            wickr_ec_key_destroy(&s2->root->sig_key);
            Actor *far2 = nullptr;
            for (auto &y : W.a) if (y.account != S.account) far2 = &y;
            s2->root->sig_key = wickr_ec_key_copy(far2->dev.chain()->root->sig_key);
            d = own(wickr_decode_result_from_parse_result(rp->packet, &e, rp->parse_result, R.ctx()->dev_info->msg_proto_id, R.eph->ec_key, R.ctx()->id_chain, s2.get()));
            no_open(d.get(), "another sender root with the right key", ver);
        }
    }
    // 5. each recipient's exchange is for that recipient only
    if (n > 1) {
        Actor &Q = W[p[1]];
        auto qp = own(wickr_ctx_parse_packet(Q.ctx(), wire, S.pub.get()));
        REQUIRE(qp && qp->parse_result && qp->parse_result->err == E_SUCCESS, "parse-failed", "the addressed device cannot parse");
        no_open(own(wickr_ctx_decode_packet(R.ctx(), qp.get(), R.eph->ec_key)).get(), "a recipient using another recipient's exchange", ver);
        EXPECT(B(qp->parse_result->key_exchange->exchange_ciphertext->cipher_text) != B(rp->parse_result->key_exchange->exchange_ciphertext->cipher_text), "same-exchange", "two recipients got the same exchange");
    }
    // it does open for the recipient
    auto ok = own(wickr_ctx_decode_packet(R.ctx(), rp.get(), R.eph->ec_key));
    REQUIRE(ok && ok->err == E_SUCCESS, "open-failed", "the addressed device cannot open");
    ev("opened");
    if (k < 4) sample(fmt("version %d, %zu recipients, %zu-byte packet, %zu engine calls observed", ver, n, w.size(), mon().calls.size()));
}
void prop_fini() {}
}
