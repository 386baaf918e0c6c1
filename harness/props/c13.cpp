// C13: persistence and recovery keep an account's identity and storage keys, and never mix accounts.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C13";
static World W;
static wickr_crypto_engine_t E;
void prop_init() { E = plain_engine(); Rng r(g_seed * 211 + 13); W.build(r, 9, E); }
void prop_fini() {}

static Bytes ek_bytes(const wickr_cipher_key_t *k) { return B(k->key_data); }
// a storage key the way the library writes it
static Bytes ref_cipher_key(const wickr_cipher_key_t *k) { return cat({ Bytes{ (uint8_t)k->cipher.cipher_id }, B(k->key_data) }); }
static Bytes ref_root_keys(const wickr_root_keys_t *k) { ref::PW w; w.u(1, 1).s(2, ref_cipher_key(k->node_storage_root)).s(3, ref_cipher_key(k->remote_storage_root)).s(4, B(k->node_signature_root->pri_data)); return w.b; }
static Bytes ref_ctx(const wickr_ctx_t *c)
{
    ref::PW st;
    st.u(1, 1).s(2, ref_cipher_key(c->storage_keys->local)).s(3, ref_cipher_key(c->storage_keys->remote));
    ref::PW w;
    w.s(1, st.b).s(2, ref::enc_chain(ref_chain(c->id_chain), true));
    return w.b;
}
static void same_ctx(const wickr_ctx_t *a, const wickr_ctx_t *b, const std::string &how)
{
    EXPECT(same(a->id_chain, b->id_chain), "identity-differs", "%s: the identity differs from the original", how.c_str());
    EXPECT(same(a->storage_keys, b->storage_keys), "storage-keys-differ", "%s: the storage keys differ from the original", how.c_str());
    EXPECT(same(a->packet_header_key, b->packet_header_key), "header-key-differs", "%s: the routing key differs from the original", how.c_str());
    EXPECT(same(a->dev_info, b->dev_info), "device-differs", "%s: the device information differs", how.c_str());
}
// one step of persistence; returns a context that must stand for the same device
static H<wickr_ctx_t> persist(Rng &r, const wickr_ctx_t *c, std::string &how)
{
    wickr_dev_info_t *di = wickr_dev_info_copy(c->dev_info);
    H<wickr_ctx_t> o;
    switch (r.below(5)) {
        case 0: case 1: {
            auto s = own(wickr_ctx_serialize(c));
            REQUIRE(s, "serialize", "serializing a context failed");
            EXPECT(B(s) == ref_ctx(c), "format", "a serialized context is not the documented form of its fields");
            View w(B(s));
            o = own(wickr_ctx_create_from_buffer(E, di, w));
            how += " serialized";
            break;
        }
        case 2: {
            View w(ref_ctx(c));
            o = own(wickr_ctx_create_from_buffer(E, di, w));
            how += " independently-serialized";
            break;
        }
        case 3: {
            Bytes pass = r.bytes(r.range(1, 40));
            View p(pass);
            auto s = own(wickr_ctx_export(c, p));
            REQUIRE(s, "export", "exporting a context failed");
            View w(B(s));
            o = own(wickr_ctx_import(E, di, w, p));
            how += " exported";
            break;
        }
        default:
            wickr_dev_info_destroy(&di);
            o = own(wickr_ctx_copy(c));
            how += " copied";
            break;
    }
    REQUIRE(o, "not-restored", "the context could not be restored (%s)", how.c_str());
    return o;
}
static H<wickr_cipher_result_t> through_bytes(H<wickr_cipher_result_t> x)
{
    REQUIRE(x, "storage", "storing data failed");
    auto s = own(wickr_cipher_result_serialize(x.get()));
    View w(B(s));
    auto o = own(wickr_cipher_result_from_buffer(w));
    REQUIRE(o, "storage", "stored data can not be read back");
    return o;
}
static void reads(const wickr_ctx_t *c, const wickr_cipher_result_t *x, bool local, bool expect, const Bytes &data, const std::string &how)
{
    auto p = own(local ? wickr_ctx_decipher_local(c, x) : wickr_ctx_decipher_remote(c, x));
    if (expect) EXPECT(p && eq(p.get(), data), "storage-lost", "%s: data stored %s earlier can not be read", how.c_str(), local ? "locally" : "remotely");
    else EXPECT(!p, "storage-mixed", "%s: data stored %s by another device or account was read", how.c_str(), local ? "locally" : "remotely");
    ev(expect ? "stored_read" : "stored_refused");
}
// conversation between a device standing in for the actor and the others
static void converses(Rng &r, wickr_ctx_t *c, Actor &as, const std::string &how)
{
    size_t oi = r.below(W.size());
    Actor &o = W[oi];
    int ver = (int)r.range(2, 4);
    PayloadSpec ps = gen_payload(r, 500), ps2 = gen_payload(r, 500);
    auto pl = make_payload(ps), pl2 = make_payload(ps2);
    o.ctx()->pkt_enc_version = (uint8_t)ver;
    std::vector<const Actor *> to{ &as };
    auto nodes = nodes_for(to);
    auto enc = own(wickr_ctx_encode_packet(o.ctx(), pl.get(), nodes.get()));
    REQUIRE(enc, "seal-failed", "sealing to the device failed");
    auto s = own(wickr_packet_serialize(enc->packet));
    auto cp = own(wickr_ctx_parse_packet(c, s.get(), o.pub.get()));
    REQUIRE(cp && cp->parse_result && cp->parse_result->err == E_SUCCESS, "can-not-open", "%s: a message addressed to the original can not be parsed", how.c_str());
    auto d = own(wickr_ctx_decode_packet(c, cp.get(), as.eph->ec_key));
    EXPECT(d && d->err == E_SUCCESS && payload_matches(d->decrypted_payload, ps), "can-not-open", "%s: a message addressed to the original can not be opened", how.c_str());
    ev("opened");
    c->pkt_enc_version = (uint8_t)ver;
    std::vector<const Actor *> to2{ &o };
    auto nodes2 = nodes_for(to2);
    auto enc2 = own(wickr_ctx_encode_packet(c, pl2.get(), nodes2.get()));
    REQUIRE(enc2, "can-not-seal", "%s: sealing failed", how.c_str());
    auto s2 = own(wickr_packet_serialize(enc2->packet));
    auto cp2 = own(wickr_ctx_parse_packet(o.ctx(), s2.get(), as.pub.get()));
    REQUIRE(cp2 && cp2->parse_result && cp2->parse_result->err == E_SUCCESS && cp2->parse_result->signature_status == PACKET_SIGNATURE_VALID, "not-attributed", "%s: a message sealed by the restored device is not attributed to the original", how.c_str());
    auto d2 = own(wickr_ctx_decode_packet(o.ctx(), cp2.get(), o.eph->ec_key));
    EXPECT(d2 && d2->err == E_SUCCESS && payload_matches(d2->decrypted_payload, ps2), "can-not-seal", "%s: a message sealed by the restored device is not the one it sealed", how.c_str());
    c->pkt_enc_version = 4;
    o.ctx()->pkt_enc_version = 4;
    ev("sealed");
}
static void ephemerals(Rng &r, const wickr_ctx_t *c, const std::string &how)
{
    uint64_t id = gen_u64(r);
    auto k = own(wickr_ctx_ephemeral_keypair_gen(c, id));
    REQUIRE(k, "ephemeral", "%s: generating an ephemeral key failed", how.c_str());
    EXPECT(k->identifier == id && ref_eph_ok(k.get(), c->id_chain->node), "ephemeral", "%s: an ephemeral key is not signed by the device", how.c_str());
}
static void persistence(Rng &r)
{
    Actor &a = W[r.below(W.size())];
    std::string how;
    Bytes data = gen_bytes(r, 3000);
    View dv(data);
    auto loc = through_bytes(own(wickr_ctx_cipher_local(a.ctx(), dv))), rem = through_bytes(own(wickr_ctx_cipher_remote(a.ctx(), dv)));
    std::string before = snap(a.ctx());
    H<wickr_ctx_t> c = own(wickr_ctx_copy(a.ctx()));
    REQUIRE(c, "copy", "copying a context failed");
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; i++) c = persist(r, c.get(), how);       // the previous one is gone
    EXPECT(snap(a.ctx()) == before, "original-changed", "persisting a context changed it (%s)", how.c_str());
    same_ctx(c.get(), a.ctx(), how);
    EXPECT(c->pkt_enc_version >= 2 && c->pkt_enc_version <= 4, "version", "a restored context uses message version %d", c->pkt_enc_version);
    reads(c.get(), loc.get(), true, true, data, how);
    reads(c.get(), rem.get(), false, true, data, how);
    auto back = through_bytes(own(wickr_ctx_cipher_local(c.get(), dv)));
    reads(a.ctx(), back.get(), true, true, data, how + ", read by the original");
    back = through_bytes(own(wickr_ctx_cipher_remote(c.get(), dv)));
    reads(a.ctx(), back.get(), false, true, data, how + ", read by the original");
    for (auto &o : W.a) if (&o != &a && r.chance(1, 3)) { reads(o.ctx(), loc.get(), true, false, data, "another device"); reads(o.ctx(), rem.get(), false, o.account == a.account, data, o.account == a.account ? "another device of the account" : "another account"); }
    converses(r, c.get(), a, how);
    ephemerals(r, c.get(), how);
    // restored under another device's information: identity and keys are unchanged, and the caller keeps the
    // information when restoring fails
    {
        auto s = own(wickr_ctx_serialize(c.get()));
        Actor &o = W[r.below(W.size())];
        wickr_dev_info_t *di = wickr_dev_info_copy(o.ctx()->dev_info);
        View w(B(s));
        auto m = own(wickr_ctx_create_from_buffer(E, di, w));
        REQUIRE(m, "not-restored", "a context could not be restored with other device information");
        EXPECT(same(m->dev_info, o.ctx()->dev_info) && same(m->id_chain, c->id_chain) && same(m->storage_keys, c->storage_keys), "mixed", "a context restored with other device information mixes identities or keys");
        Bytes cut = sub(B(s), 0, r.below(s->length));
        di = wickr_dev_info_copy(o.ctx()->dev_info);
        View wc(cut);
        auto bad = own(wickr_ctx_create_from_buffer(E, di, wc));
        if (!bad) wickr_dev_info_destroy(&di);
        EXPECT(!bad, "altered-context", "a context was restored from the first %zu of %zu bytes", cut.size(), (size_t)s->length);
    }
    ev("restored");
    distinct(how);
}

// ------------------------------------------------------------------ accounts
struct Dev { H<wickr_ctx_gen_result_t> g; Bytes sys; };
struct Acc {
    Bytes id, sig_der, node_root, remote_root;
    std::vector<Dev> devs;
    std::vector<std::pair<H<wickr_cipher_result_t>, Bytes>> remote;
};
static void check_dev(const Acc &a, const Dev &d, const std::string &how)
{
    auto *c = d.g->ctx;
    EXPECT(eq(c->id_chain->root->identifier, a.id), "identifier", "%s: the account identifier differs", how.c_str());
    EXPECT(eq(c->id_chain->root->sig_key->pri_data, a.sig_der), "root-identity", "%s: the root identity key differs from the account's", how.c_str());
    EXPECT(ref_chain_ok(c->id_chain), "chain", "%s: the device is not signed by the account's root", how.c_str());
    EXPECT(ek_bytes(c->storage_keys->remote) == a.remote_root, "remote-key", "%s: the remote storage key differs from the account's", how.c_str());
    EXPECT(ek_bytes(c->storage_keys->local) == ref::sha(256, cat({ a.node_root, ref::sha(256, d.sys) })), "local-key", "%s: the local storage key is not derived from the account's root and the device", how.c_str());
    EXPECT(ek_bytes(c->packet_header_key) == ref::sha(256, cat({ a.id, B(c->id_chain->node->identifier) })), "header-key", "%s: the routing key is not derived from the identifiers", how.c_str());
    EXPECT(eq(d.g->root_keys->node_signature_root->pri_data, a.sig_der) && ek_bytes(d.g->root_keys->node_storage_root) == a.node_root && ek_bytes(d.g->root_keys->remote_storage_root) == a.remote_root, "root-keys", "%s: the account keys differ from the account's", how.c_str());
    ev("devices_checked");
}
static H<wickr_dev_info_t> dev_info(const Bytes &sys) { auto s = mk(sys); auto d = own(wickr_dev_info_create_new(&E, s.get())); REQUIRE(d, "dev-info", "creating device information failed"); return d; }
static Acc new_account(Rng &r)
{
    Acc a;
    Dev d;
    d.sys = r.bytes(r.range(1, 80));
    auto di = dev_info(d.sys);
    a.id = gen_bytes(r, 127);
    auto id = mk(a.id);
    if (r.chance(1, 3)) {
        auto sk = own(E.wickr_crypto_engine_ec_rand_key(E.default_curve));
        d.g = own(wickr_ctx_gen_new_with_sig_key(E, di.get(), sk.get(), id.get()));
        REQUIRE(d.g, "new-account", "making an account with a given signing key failed");
        EXPECT(same(d.g->root_keys->node_signature_root, sk.get()), "root-identity", "an account made with a given signing key uses another");
        ev("given_sig_key");
    } else d.g = own(wickr_ctx_gen_new(E, di.get(), id.get()));
    REQUIRE(d.g, "new-account", "making an account failed");
    a.sig_der = B(d.g->root_keys->node_signature_root->pri_data);
    a.node_root = ek_bytes(d.g->root_keys->node_storage_root);
    a.remote_root = ek_bytes(d.g->root_keys->remote_storage_root);
    check_dev(a, d, "new account");
    a.devs.push_back(std::move(d));
    return a;
}
static void store_remote(Rng &r, Acc &a)
{
    Dev &d = a.devs[r.below(a.devs.size())];
    Bytes data = gen_bytes(r, 600);
    View v(data);
    a.remote.emplace_back(through_bytes(own(wickr_ctx_cipher_remote(d.g->ctx, v))), data);
}
static Dev recover(Rng &r, Acc &a, std::string &how)
{
    Dev &src = a.devs[r.below(a.devs.size())];
    Dev d;
    bool same_sys = r.chance(1, 3);
    d.sys = same_sys ? src.sys : r.bytes(r.range(1, 80));
    auto di = dev_info(d.sys);
    auto id = mk(a.id);
    H<wickr_ctx_gen_result_t> srcg;
    wickr_ctx_gen_result_t *g = src.g.get();
    if (r.chance(1, 4)) { srcg = own(wickr_ctx_gen_result_copy(g)); REQUIRE(srcg, "copy", "copying a generation result failed"); g = srcg.get(); how += "copy,"; }
    std::string gs = snap(g->ctx);
    auto rec = own(wickr_ctx_gen_result_make_recovery(g));
    REQUIRE(rec, "make-recovery", "making recovery data failed");
    Bytes recb = B(rec), pt;
    Bytes rk = ek_bytes(g->recovery_key);
    EXPECT(ref::gcm_unbox(rk, recb, pt) && pt == ref_root_keys(g->root_keys), "format", "recovery data is not the documented encryption of the account keys");
    int mode = (int)r.below(6);
    if (mode == 5) { recb = ref::gcm_box(rk, r.bytes(12), ref_root_keys(g->root_keys)); how += "ref-"; }
    View rb(recb);
    bool keeps_key = true;
    switch (mode) {
        case 0: case 5: {
            auto k = own(wickr_cipher_key_copy(g->recovery_key));
            d.g = own(wickr_ctx_gen_with_recovery(E, di.get(), &rb, k.get(), id.get()));
            EXPECT(same(k.get(), g->recovery_key), "input-changed", "recovering changed the caller's key");
            how += "key ";
            break;
        }
        case 1: {   // the key travels as bytes
            auto ks = own(wickr_cipher_key_serialize(g->recovery_key));
            auto k = own(wickr_cipher_key_from_buffer(ks.get()));
            REQUIRE(k, "recovery-key", "a serialized recovery key can not be read");
            d.g = own(wickr_ctx_gen_with_recovery(E, di.get(), &rb, k.get(), id.get()));
            how += "key-bytes ";
            break;
        }
        case 2: {
            View p(r.bytes(r.range(1, 30)));
            auto ex = own(wickr_ctx_gen_export_recovery_key_passphrase(g, p));
            REQUIRE(ex, "export", "exporting a recovery key failed");
            View exv(B(ex));
            d.g = own(wickr_ctx_gen_with_passphrase(E, di.get(), &exv, &p, &rb, id.get()));
            how += "passphrase ";
            break;
        }
        case 3: {
            auto k = own(wickr_ctx_gen_import_recovery(E, rb, g->recovery_key));
            REQUIRE(k && same(k.get(), g->root_keys), "import-recovery", "account keys imported from recovery data differ");
            d.g = own(wickr_ctx_gen_with_root_keys(E, di.get(), k.get(), id.get()));
            EXPECT(same(k.get(), g->root_keys), "input-changed", "making a device changed the caller's account keys");
            keeps_key = false;
            how += "imported ";
            break;
        }
        default: {  // account keys travel as bytes
            auto s = own(wickr_root_keys_serialize(g->root_keys));
            REQUIRE(s, "root-keys", "serializing account keys failed");
            EXPECT(B(s) == ref_root_keys(g->root_keys), "format", "serialized account keys are not the documented form");
            View sv(B(s));
            auto k = own(wickr_root_keys_create_from_buffer(&E, sv));
            REQUIRE(k, "root-keys", "serialized account keys can not be read");
            d.g = own(wickr_ctx_gen_with_root_keys(E, di.get(), k.get(), id.get()));
            keeps_key = false;
            how += "root-key-bytes ";
            break;
        }
    }
    REQUIRE(d.g, "not-recovered", "the account could not be recovered (%s)", how.c_str());
    EXPECT(snap(g->ctx) == gs, "original-changed", "recovering changed the original context");
    EXPECT(same(d.g->ctx->dev_info, di.get()), "device-info", "the recovered device carries other device information");
    if (keeps_key) EXPECT(same(d.g->recovery_key, g->recovery_key), "recovery-key", "an account recovered with a recovery key has a different one (%s)", how.c_str());
    // a device of its own
    EXPECT(!same(d.g->ctx->id_chain->node->identifier, g->ctx->id_chain->node->identifier) && !same_pub(d.g->ctx->id_chain->node->sig_key, g->ctx->id_chain->node->sig_key), "same-device", "a recovered device reuses the identity of the original device");
    bool lk = same(d.g->ctx->storage_keys->local, g->ctx->storage_keys->local);
    EXPECT(lk == (d.sys == src.sys), "local-key", "local storage keys are %s on %s system (%s)", lk ? "equal" : "different", d.sys == src.sys ? "the same" : "another", how.c_str());
    check_dev(a, d, how);
    Bytes data = gen_bytes(r, 300);
    View v(data);
    auto loc = through_bytes(own(wickr_ctx_cipher_local(src.g->ctx, v)));
    reads(d.g->ctx, loc.get(), true, d.sys == src.sys, data, "recovered device");
    ev("recovered");
    distinct(fmt("%s sys%d devs%zu", how.c_str(), same_sys, std::min<size_t>(a.devs.size(), 6)));
    return d;
}
static void accounts(Rng &r)
{
    Acc a = new_account(r), b = new_account(r);
    store_remote(r, a);
    store_remote(r, b);
    EXPECT(a.remote_root != b.remote_root && a.node_root != b.node_root && a.sig_der != b.sig_der, "accounts-alike", "two accounts share keys");
    int n = (int)r.range(1, g_thorough ? 8 : 4);
    for (int i = 0; i < n; i++) {
        std::string how;
        a.devs.push_back(recover(r, a, how));
        if (r.chance(1, 2)) store_remote(r, a);
        if (r.chance(1, 3) && a.devs.size() > 1) a.devs.erase(a.devs.begin() + r.below(a.devs.size()));
        if (r.chance(1, 4)) {     // a device goes through persistence
            Dev &d = a.devs[r.below(a.devs.size())];
            std::string ph;
            auto c = persist(r, d.g->ctx, ph);
            same_ctx(c.get(), d.g->ctx, ph);
            for (auto &x : a.remote) reads(c.get(), x.first.get(), false, true, x.second, "persisted device of the account");
        }
    }
    for (auto &d : a.devs) {
        for (auto &x : a.remote) reads(d.g->ctx, x.first.get(), false, true, x.second, "device of the account");
        for (auto &x : b.remote) reads(d.g->ctx, x.first.get(), false, false, x.second, "device of another account");
    }
    // a recovered device is a full device: messages flow between it and another
    {
        Dev &x = a.devs[r.below(a.devs.size())];
        Actor as;
        as.dev.gen = own(wickr_ctx_gen_result_copy(x.g.get()));
        as.dev.root_id = a.id;
        as.dev.node_id = B(x.g->ctx->id_chain->node->identifier);
        as.kid = gen_u64(r);
        as.eph = gen_eph(as.dev, as.kid);
        as.node = public_node(as.dev, as.eph.get(), E);
        as.pub = public_chain(as.dev, E);
        converses(r, x.g->ctx, as, "recovered device");
    }
    // nothing but this account's recovery data and key
    Dev &x = a.devs[r.below(a.devs.size())], &y = b.devs[0];
    auto rec = own(wickr_ctx_gen_result_make_recovery(x.g.get())), recb = own(wickr_ctx_gen_result_make_recovery(y.g.get()));
    auto rec2 = own(wickr_ctx_gen_result_make_recovery(x.g.get()));
    EXPECT(rec && rec2 && !same(rec.get(), rec2.get()), "recovery-repeats", "recovery data made twice is identical");
    auto di = dev_info(r.bytes(20));
    auto id = mk(a.id);
    auto refused = [&](const Bytes &data, const wickr_cipher_key_t *key, const std::string &what) {
        View d(data);
        auto k = own(wickr_cipher_key_copy(key));
        bool two = r.chance(1, 2);
        auto g = two ? H<wickr_ctx_gen_result_t>() : own(wickr_ctx_gen_with_recovery(E, di.get(), &d, k.get(), id.get()));
        auto rk = two ? own(wickr_ctx_gen_import_recovery(E, d, k.get())) : H<wickr_root_keys_t>();
        EXPECT(!g && !rk, "recovered-wrongly", "an account was recovered from %s", what.c_str());
        ev("recovery_refused");
    };
    refused(B(rec), y.g->recovery_key, "its recovery data and another account's recovery key");
    refused(B(recb), x.g->recovery_key, "another account's recovery data and its recovery key");
    refused(B(rec), x.g->root_keys->remote_storage_root, "its recovery data and its remote storage key");
    refused(B(rec), x.g->root_keys->node_storage_root, "its recovery data and its node storage root");
    refused(B(rec), x.g->ctx->storage_keys->local, "its recovery data and its local storage key");
    { auto k = own(wickr_cipher_key_copy(x.g->recovery_key)); k->key_data->bytes[r.below(32)] ^= (uint8_t)(1 << r.below(8)); refused(B(rec), k.get(), "its recovery data and a recovery key that differs in one bit"); }
    for (int i = 0; i < 12; i++) { std::string w; Bytes m = mutate(r, B(rec), &w); refused(m, x.g->recovery_key, "altered recovery data (" + w + ")"); distinct("altered:" + w.substr(0, 8)); }
    for (int i = 0; i < 12; i++) { Bytes m = B(rec); m[r.below(m.size())] ^= (uint8_t)(1 << r.below(8)); refused(m, x.g->recovery_key, "recovery data with one bit changed"); }
    { // unauthenticated recovery data is not accepted, whatever it says
        Bytes iv = r.bytes(16), c = ref::ctr(ek_bytes(x.g->recovery_key), iv, ref_root_keys(x.g->root_keys));
        refused(ref::cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), c), x.g->recovery_key, "unauthenticated recovery data");
        auto k = own(wickr_cipher_key_create(CIPHER_AES256_CTR, mkp(ek_bytes(x.g->recovery_key))));
        refused(ref::cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), c), k.get(), "unauthenticated recovery data and key");
    }
    // incomplete account keys, properly encrypted
    for (int drop = 2; drop <= 4; drop++) {
        ref::PW w;
        auto *k = x.g->root_keys;
        w.u(1, 1);
        if (drop != 2) w.s(2, ref_cipher_key(k->node_storage_root));
        if (drop != 3) w.s(3, ref_cipher_key(k->remote_storage_root));
        if (drop != 4) w.s(4, B(k->node_signature_root->pri_data));
        refused(ref::gcm_box(ek_bytes(x.g->recovery_key), r.bytes(12), w.b), x.g->recovery_key, fmt("recovery data without field %d", drop));
    }
    {
        ref::PW w;
        auto *k = x.g->root_keys;
        w.u(1, r.range(2, 200)).s(2, ref_cipher_key(k->node_storage_root)).s(3, ref_cipher_key(k->remote_storage_root)).s(4, B(k->node_signature_root->pri_data));
        refused(ref::gcm_box(ek_bytes(x.g->recovery_key), r.bytes(12), w.b), x.g->recovery_key, "recovery data of an unknown version");
    }
    if (r.chance(1, 2)) {      // passphrases
        Bytes pass = r.bytes(r.range(1, 20)), wrong = pass;
        wrong[r.below(wrong.size())] ^= 1;
        if (wrong.back() == 0 || pass.back() == 0) return;
        View p(pass), w(wrong), rb(B(rec)), rbb(B(recb));
        auto ex = own(wickr_ctx_gen_export_recovery_key_passphrase(x.g.get(), p)), exb = own(wickr_ctx_gen_export_recovery_key_passphrase(y.g.get(), p));
        View ev1(B(ex)), ev2(B(exb));
        EXPECT(!own(wickr_ctx_gen_with_passphrase(E, di.get(), &ev1, &w, &rb, id.get())), "recovered-wrongly", "an account was recovered with a wrong passphrase");
        EXPECT(!own(wickr_ctx_gen_with_passphrase(E, di.get(), &ev2, &p, &rb, id.get())), "recovered-wrongly", "an account was recovered with another account's exported recovery key");
        EXPECT(!own(wickr_ctx_gen_with_passphrase(E, di.get(), &ev1, &p, &rbb, id.get())), "recovered-wrongly", "another account's recovery data was accepted");
        ev("recovery_refused", 3);
    }
    if (r.chance(1, 20)) sample(fmt("account of %zu devices (%zu pieces of remote data), all recovered and read; another account's keys, data and passphrases refused", a.devs.size(), a.remote.size()));
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    if (k % 2) persistence(r); else accounts(r);
}
} // namespace v
