// C02: tampered or misattributed messages never decode.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C02";
static World W;
void prop_init() { Rng r(g_seed * 77 + 2); W.build(r, 6, plain_engine()); W.odd(r, 1); W.odd(r, 4); W.odd(r, 3, 32, 33); }

struct Out { bool ok = false; std::string how; H<wickr_decode_result_t> d; int perr = -1, sig = -1; };
// everything a receiver could do with these bytes; ok only if some path handed out a payload or key
static Out attempt(Rng &r, wickr_ctx_t *rc, const Bytes &wire, const wickr_identity_chain_t *sender, wickr_ec_key_t *key, bool no_decode_too = true)
{
    wickr_crypto_engine_t e = plain_engine();
    Out o;
    View w(wire);
    int mode = (int)r.below(3);
    H<wickr_ctx_packet_t> cp;
    if (mode == 0) cp = own(wickr_ctx_stateless_parse_packet(&e, rc->id_chain->node->identifier, w, sender));
    else cp = own(wickr_ctx_parse_packet(rc, w, sender));
    o.how = mode == 0 ? "stateless parse" : "parse";
    if (cp && cp->parse_result) {
        o.perr = cp->parse_result->err;
        o.sig = cp->parse_result->signature_status;
        EXPECT(o.perr == E_SUCCESS || (!cp->parse_result->key_exchange && !cp->parse_result->enc_payload && !cp->parse_result->key_exchange_set), "failure-with-content", "a failed parse (err %d) carries content", o.perr);
        o.d = own(wickr_ctx_decode_packet(rc, cp.get(), key));
        if (o.d) {
            o.ok = o.d->err == E_SUCCESS;
            EXPECT(o.ok == (o.d->decrypted_payload != NULL) && o.ok == (o.d->payload_key != NULL), "failure-with-content", "decode result with err %d has payload=%d key=%d", o.d->err, o.d->decrypted_payload != NULL, o.d->payload_key != NULL);
            EXPECT(!o.ok || o.perr == E_SUCCESS, "decoded-after-failed-parse", "decoding succeeded although parsing reported err %d", o.perr);
        }
    }
    if (no_decode_too && r.chance(1, 3)) {
        auto nd = own(wickr_ctx_parse_packet_no_decode(rc, w, sender));
        if (nd && nd->parse_result) {
            EXPECT((nd->parse_result->signature_status == PACKET_SIGNATURE_VALID) == (o.sig == PACKET_SIGNATURE_VALID) || o.perr == E_SUCCESS, "inspect-differs", "inspection says signature status %d, parsing %d", nd->parse_result->signature_status, o.sig);
            auto d = own(wickr_ctx_decode_packet(rc, nd.get(), key));
            EXPECT(!d || d->err != E_SUCCESS, "decoded-uninspected", "an inspected-only packet was decoded without an exchange");
        }
    }
    ev("attempts");
    return o;
}
static void tampered(uint64_t k, Rng &r)
{
    size_t si = r.below(W.size()), ri = r.below(W.size());
    Actor &S = W[si], &R = W[ri];
    int ver = (int)r.range(2, 4);
    PayloadSpec ps = gen_payload(r, r.chance(1, 6) ? 3000 : 120);
    std::vector<const Actor *> to{ &R };
    if (r.chance(1, 2)) to.push_back(&W[(ri + 1) % W.size()]);
    auto nodes = nodes_for(to);
    auto pl = make_payload(ps);
    S.ctx()->pkt_enc_version = (uint8_t)ver;
    auto enc = own(wickr_ctx_encode_packet(S.ctx(), pl.get(), nodes.get()));
    REQUIRE(enc, "seal-failed", "sealing failed");
    auto ser = own(wickr_packet_serialize(enc->packet));
    Bytes w = B(ser), pk = B(enc->packet_key->key_data);
    wickr_ec_key_t *key = R.eph->ec_key;
    // an unmodified packet opens (so that the refusals below mean something)
    Out base = attempt(r, R.ctx(), w, S.pub.get(), key, false);
    REQUIRE(base.ok && payload_matches(base.d->decrypted_payload, ps), "baseline", "the untouched packet does not open");
    ev("baseline_opened");
    size_t n = w.size(), c0 = 2, c1 = n - 143;
    // a stride of single-bit changes covering the whole content across cases
    auto try_one = [&](const Bytes &m, const std::string &what) {
        bool content_same = m.size() >= 145 && sub(m, 2, m.size() - 145) == sub(w, 2, n - 145);
        bool sig_ok = false;
        if (!content_same) {
            Bytes der; int dg = 0;
            if (m.size() > 145 && ref::sig_unblock(sub(m, m.size() - 143), der, &dg) && m[1] <= 0xff) sig_ok = ref::ecdsa_verify(B(S.pub->node->sig_key->pub_data), sub(m, 2, m.size() - 145), der, dg == 1 ? 256 : dg == 2 ? 384 : 512);
        }
        Out o = attempt(r, R.ctx(), m, S.pub.get(), key);
        if (!content_same && !sig_ok) {
            EXPECT(!o.ok, "tampered-accepted", "version %d: content changed (%s) but the message opened", ver, what.c_str());
            EXPECT(o.perr != E_SUCCESS, "tampered-parsed", "version %d: content changed (%s) but parsing reported success", ver, what.c_str());
            EXPECT(o.sig != PACKET_SIGNATURE_VALID, "tampered-signed", "version %d: content changed (%s) but the signature is reported valid", ver, what.c_str());
            ev("content_tampered");
        } else {
            if (o.ok) {
                std::string why;
                EXPECT(payload_matches(o.d->decrypted_payload, ps, &why) && eq(o.d->payload_key->key_data, pk), "frame-changed-payload", "version %d: after %s another payload was accepted: %s", ver, what.c_str(), why.c_str());
                ev("frame_tolerated");
            }
            ev("frame_tampered");
        }
    };
    for (int i = 0; i < 24; i++) {
        Bytes m = w;
        size_t off = c0 + (size_t)((k * 24 + i) * 31 + r.below(31)) % (c1 - c0);
        unsigned bit = (unsigned)r.below(8);
        m[off] ^= (uint8_t)(1u << bit);
        try_one(m, fmt("flip bit %u of byte %zu/%zu", bit, off, n));
        distinct(fmt("v%d c%zu", ver, off));
    }
    for (int i = 0; i < 10; i++) {
        Bytes m = w;
        size_t off = r.chance(1, 4) ? r.below(2) : c1 + r.below(143);
        if (r.chance(1, 5)) off = c1 + r.below(3);
        m[off] ^= (uint8_t)r.range(1, 255);
        try_one(m, fmt("change byte %zu/%zu to %02x", off, n, m[off]));
        distinct(fmt("v%d f%zu", ver, off < 2 ? off : off - c1 + 2));
    }
    for (int x = 0; x < 6; x++) { Bytes m = w; m[0] = (uint8_t)(x < 5 ? x + 1 : r.u64()); if (m != w) try_one(m, fmt("version %d presented as %d", ver, m[0])); }
    for (int i = 0; i < 10; i++) { std::string what; Bytes m = mutate(r, w, &what); try_one(m, what); distinct(what); }
    // content of one message with the signature of another by the same sender
    {
        PayloadSpec p2 = gen_payload(r, 100);
        auto pl2 = make_payload(p2);
        auto enc2 = own(wickr_ctx_encode_packet(S.ctx(), pl2.get(), nodes.get()));
        REQUIRE(enc2, "seal-failed", "sealing failed");
        auto ser2 = own(wickr_packet_serialize(enc2->packet));
        Bytes m = cat({ sub(w, 0, c1), sub(B(ser2), ser2->length - 143) });
        try_one(m, "signature of another message");
        // header of one with the payload of the other, signature of either
        ref::Split a, b;
        if (ref::split(w, a) && ref::split(B(ser2), b)) {
            try_one(ref::frame(ver, ref::enc_packet(a.hdr, b.pl), a.sigblk), "payload of another message");
            try_one(ref::frame(ver, ref::enc_packet(b.hdr, a.pl), a.sigblk), "header of another message");
        }
    }
}
static void attributed(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    size_t si = r.below(W.size()), ri = r.below(W.size());
    Actor &S = W[si], &R = W[ri];
    int ver = (int)r.range(2, 4);
    PayloadSpec ps = gen_payload(r, 200);
    auto nodes = nodes_for({ &R });
    auto pl = make_payload(ps);
    S.ctx()->pkt_enc_version = (uint8_t)ver;
    auto enc = own(wickr_ctx_encode_packet(S.ctx(), pl.get(), nodes.get()));
    REQUIRE(enc, "seal-failed", "sealing failed");
    auto ser = own(wickr_packet_serialize(enc->packet));
    Bytes w = B(ser);
    for (int q = 0; q < 6; q++) {
        H<wickr_identity_chain_t> c = own(wickr_identity_chain_copy(S.pub.get()));
        Actor &X = W[(si + 1 + r.below(W.size() - 1)) % W.size()];
        std::string what;
        bool other_key = false;
        switch (q) {
            case 0: c = own(wickr_identity_chain_copy(X.pub.get())); what = "another device"; other_key = true; break;
            case 1: { auto *i = wickr_ec_key_copy(X.pub->node->sig_key); wickr_ec_key_destroy(&c->node->sig_key); c->node->sig_key = i; what = "same identifiers with another device key"; other_key = true; break; }
            case 2: { wickr_buffer_destroy(&c->node->identifier); c->node->identifier = mkp(X.dev.node_id == S.dev.node_id ? r.bytes(32) : X.dev.node_id); what = "another device identifier"; break; }
            case 3: { wickr_buffer_destroy(&c->root->identifier); c->root->identifier = mkp(X.dev.root_id == S.dev.root_id ? r.bytes(32) : X.dev.root_id); what = "another root identifier"; break; }
            case 4: { if (c->node->identifier->length == c->root->identifier->length && B(c->node->identifier) != B(c->root->identifier)) std::swap(c->node->identifier, c->root->identifier); else c->root->identifier->bytes[0] ^= 1; what = "identifiers exchanged"; break; }
            default: {
                if (ver < 3) continue;
                auto nk = ref::ec_gen(r);
                wickr_buffer_destroy(&c->root->sig_key->pub_data);
                c->root->sig_key->pub_data = mkp(nk.pub);
                what = "another root key";
            }
        }
        Out o = attempt(r, R.ctx(), w, c.get(), R.eph->ec_key);
        EXPECT(!o.ok, "misattributed-accepted", "version %d: message opened although attributed to %s", ver, what.c_str());
        if (other_key) EXPECT(o.perr != E_SUCCESS && o.sig != PACKET_SIGNATURE_VALID, "misattributed-signed", "version %d: signature reported valid for %s (err %d)", ver, what.c_str(), o.perr);
        ev("misattributed");
        distinct(fmt("v%d ", ver) + what);
    }
}
// messages by a malicious but properly signing sender
static void inconsistent(uint64_t k, Rng &r)
{
    size_t si = r.below(W.size()), ri = r.below(W.size());
    Actor &S = W[si], &R = W[ri];
    int ver = (int)r.range(2, 4);
    PayloadSpec ps = gen_payload(r, 200);
    Bytes der = B(S.dev.chain()->node->sig_key->pri_data), spub = B(S.dev.chain()->root->sig_key->pub_data);
    Bytes hk = ref::header_key(S.dev.root_id, S.dev.node_id);
    ref::Recip rc = recip(R);
    ref::Key ex = ref::ec_gen(r);
    Bytes pk = r.bytes(32), pk2 = r.bytes(32);
    auto iv = [&] { return r.bytes(12); };
    typedef std::vector<std::tuple<Bytes, uint64_t, Bytes>> L;
    Bytes exd = ref::seal_exchange(r, ver, ex, spub, rc, ref::wire_key(pk));
    Bytes good_h = ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, exd } });
    Bytes gh = ref::gcm_box(hk, iv(), good_h), gp = ref::gcm_box(pk, iv(), ref::enc_payload(ps));
    Bytes opened_as;
    auto attempt_c = [&](const Bytes &content, const char *what, bool must_fail = true) {
        Bytes w = ref::sign_frame(ver, content, der);
        Out o = attempt(r, R.ctx(), w, S.pub.get(), R.eph->ec_key);
        if (must_fail) EXPECT(!o.ok, "inconsistent-accepted", "version %d: opened a validly signed message with %s", ver, what);
        ev("inconsistent");
        distinct(fmt("v%d inc ", ver) + what);
        return o;
    };
    { Out o = attempt_c(ref::enc_packet(gh, gp), "nothing wrong", false); REQUIRE(o.ok && payload_matches(o.d->decrypted_payload, ps), "baseline", "version %d: a well-formed independent message does not open (parse err %d)", ver, o.perr); ev("baseline_opened"); }
    {   // the right key signing with a weaker digest than the format prescribes
        Bytes content = ref::enc_packet(gh, gp);
        for (int bits : { 256, 384 }) {
            int id = bits == 256 ? DIGEST_ID_SHA256 : DIGEST_ID_SHA384;
            Bytes w = cat({ Bytes{ (uint8_t)ver, (uint8_t)EC_CURVE_NIST_P521.identifier }, content, ref::sig_block(ref::ecdsa_sign(der, content, bits), id) });
            Out o = attempt(r, R.ctx(), w, S.pub.get(), R.eph->ec_key);
            EXPECT(!o.ok, "inconsistent-accepted", "version %d: opened a message signed with SHA-%d", ver, bits);
            ev("downgraded_signature");
        }
    }
    attempt_c(ref::PW().s(2, gp).b, "no header");
    attempt_c(ref::PW().s(1, gh).b, "no payload");
    attempt_c(ref::PW().s(1, gh).s(2, Bytes()).b, "empty payload field");
    attempt_c(ref::PW().s(1, Bytes()).s(2, gp).b, "empty header field");
    attempt_c(ref::enc_packet(gp, gh), "header and payload exchanged");
    attempt_c(ref::enc_packet(sub(gh, 0, gh.size() - 1), gp), "truncated header");
    attempt_c(ref::enc_packet(gh, sub(gp, 0, gp.size() - r.range(1, gp.size() - 1))), "truncated payload");
    attempt_c(ref::enc_packet(sub(gh, 0, r.below(30)), gp), "header shorter than its fixed part");
    attempt_c(ref::enc_packet(gh, sub(gp, 0, r.below(30))), "payload shorter than its fixed part");
    attempt_c(ref::enc_packet(ref::gcm_box(pk2, iv(), good_h), gp), "header under another key");
    attempt_c(ref::enc_packet(gh, ref::gcm_box(pk2, iv(), ref::enc_payload(ps))), "payload under another key");
    { Bytes i16 = r.bytes(16); attempt_c(ref::enc_packet(ref::cipher_result(CIPHER_AES256_CTR.cipher_id, i16, Bytes(), ref::ctr(hk, i16, good_h)), gp), "unauthenticated header"); }
    { Bytes i16 = r.bytes(16); attempt_c(ref::enc_packet(gh, ref::cipher_result(CIPHER_AES256_CTR.cipher_id, i16, Bytes(), ref::ctr(pk, i16, ref::enc_payload(ps)))), "unauthenticated payload"); }
    {   // unauthenticated payload whose wrapped key also claims the unauthenticated cipher
        Bytes i16 = r.bytes(16), wk = cat({ Bytes{ (uint8_t)CIPHER_AES256_CTR.cipher_id }, pk });
        Bytes h = ref::gcm_box(hk, iv(), ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, spub, rc, wk) } }));
        attempt_c(ref::enc_packet(h, ref::cipher_result(CIPHER_AES256_CTR.cipher_id, i16, Bytes(), ref::ctr(pk, i16, ref::enc_payload(ps)))), "unauthenticated payload and key");
    }
    auto with_header = [&](const Bytes &h, const char *what) { attempt_c(ref::enc_packet(ref::gcm_box(hk, iv(), h), gp), what); };
    with_header(ref::enc_header(ex.pub, L{}), "no exchanges");
    with_header(ref::enc_header(ex.pub, L{ { r.bytes(32), rc.kid, exd } }), "an exchange for somebody else only");
    with_header(ref::PW().s(2, ref::PW().s(1, rc.node_id).u(2, rc.kid).s(3, exd).b).b, "no exchange key");
    with_header(ref::enc_header(r.bytes(134), L{ { rc.node_id, rc.kid, exd } }), "a random exchange key");
    { Bytes bad = ex.pub; bad[r.range(2, 133)] ^= (uint8_t)r.range(1, 255); if (!ref::ec_pub_ok(bad)) with_header(ref::enc_header(bad, L{ { rc.node_id, rc.kid, exd } }), "an exchange key off the curve"); }
    with_header(ref::enc_header(sub(ex.pub, 0, r.range(1, 133)), L{ { rc.node_id, rc.kid, exd } }), "a truncated exchange key");
    with_header(ref::enc_header(ref::ec_gen(r).pub, L{ { rc.node_id, rc.kid, exd } }), "another exchange key");
    with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, sub(exd, 0, r.range(0, exd.size() - 1)) } }), "a truncated exchange");
    with_header(ref::enc_header(ex.pub, L{ { sub(rc.node_id, 0, rc.node_id.size() - 1), rc.kid, exd } }), "a truncated recipient identifier");
    with_header(ref::enc_header(ex.pub, L{ { cat({ rc.node_id, Bytes{ 0 } }), rc.kid, exd } }), "an extended recipient identifier");
    with_header(cat({ good_h, Bytes{ 0x0f } }), "a header with trailing garbage");
    with_header(sub(good_h, 0, good_h.size() - r.range(1, 20)), "a cut header message");
    for (size_t l : { (size_t)0, (size_t)1, (size_t)16, (size_t)31, (size_t)32 }) {
        Bytes wk = l == 0 ? Bytes{ 0 } : cat({ Bytes{ 0 }, sub(pk, 0, l - 1) });
        if (l == 32) wk = cat({ Bytes{ 7 }, pk });
        with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, spub, rc, wk) } }), fmt("a wrapped key of %zu bytes", l).c_str());
    }
    with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ref::ec_gen(r), spub, rc, ref::wire_key(pk)) } }), "an exchange made with another key");
    { ref::Recip o = rc; o.dev_id = r.bytes(rc.dev_id.size()); with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, spub, o, ref::wire_key(pk)) } }), "an exchange bound to another device"); }
    if (ver > 2) {
        ref::Recip o = rc; o.root_pub = ref::ec_gen(r).pub;
        with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, spub, o, ref::wire_key(pk)) } }), "an exchange bound to another recipient root");
        with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, o.root_pub, rc, ref::wire_key(pk)) } }), "an exchange bound to another sender root");
    }
    int other = ver == 2 ? 3 : ver == 3 ? 4 : 2;
    with_header(ref::enc_header(ex.pub, L{ { rc.node_id, rc.kid, ref::seal_exchange(r, other, ex, spub, rc, ref::wire_key(pk)) } }), "an exchange of another version");
    // payload plaintexts that lack required parts
    auto with_payload = [&](const Bytes &p, const char *what) { attempt_c(ref::enc_packet(gh, ref::gcm_box(pk, iv(), p)), what); };
    Bytes eph = ref::PW().u(1, ps.ttl).u(2, ps.bor).b;
    Bytes meta = ref::PW().s(1, eph).s(2, ps.tag).u(3, ps.type).b;
    with_payload(ref::PW().s(4, ps.body).b, "a payload without metadata");
    with_payload(ref::PW().s(3, meta).b, "a payload without body");
    with_payload(ref::PW().s(3, meta).s(4, Bytes()).b, "an empty body");
    with_payload(ref::PW().s(3, ref::PW().s(1, eph).u(3, ps.type).b).s(4, Bytes()).b, "an empty body and no channel tag");
    with_payload(ref::PW().s(3, ref::PW().s(1, eph).b).s(4, Bytes()).b, "an empty body and nothing else");
    with_payload(Bytes(1, 0), "a zero byte as payload plaintext");
    with_payload(ref::PW().s(3, ref::PW().s(2, ps.tag).u(3, ps.type).b).s(4, ps.body).b, "metadata without expiry");
    with_payload(r.bytes(r.range(1, 60)).size() ? cat({ Bytes{ 0xff }, r.bytes(20) }) : Bytes(), "random payload plaintext");
    with_payload(sub(ref::enc_payload(ps), 0, ref::enc_payload(ps).size() - 1), "a cut payload plaintext");
    // arbitrary re-signed edits of the outer message: header and payload are sealed, so success means the original
    for (int i = 0; i < 6; i++) {
        std::string what;
        Bytes m = mutate(r, ref::enc_packet(gh, gp), &what);
        Out o = attempt_c(m, "an edited outer message", false);
        if (o.ok) { EXPECT(payload_matches(o.d->decrypted_payload, ps) && eq(o.d->payload_key->key_data, pk), "edited-accepted", "re-signed edit (%s) opened as another payload", what.c_str()); ev("resigned_tolerated"); }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    switch (k % 4) {
        case 0: case 1: tampered(k, r); break;
        case 2: attributed(k, r); break;
        default: inconsistent(k, r);
    }
    if (k < 4) sample(fmt("case kind %d", (int)(k % 4)));
}
void prop_fini() {}
}
