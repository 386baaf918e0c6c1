// C06: generated secrets come from fresh generator output, are never repeated, and no key is used twice with a nonce.
// Observed: every draw from the random generator, every secret an operation produces, every encryption the provider is
// asked for (key, nonce). Every operation is run twice from the same state with different generator output, and again
// with the generator failing at each of its draws.
#include "scen.hpp"
#include <unistd.h>
#include <sys/stat.h>
namespace v {
const char *PROP_ID = "C06";
static World W;
static char g_dir[64];
static std::set<Bytes> g_secrets;                    // every raw secret seen in this process
static std::map<Bytes, std::string> g_pubs;          // every generated public key
static std::map<std::pair<Bytes, Bytes>, std::string> g_used;   // (key, nonce) of every encryption
static std::string g_op;

static void use(const Bytes &key, const Bytes &iv)
{
    if (iv.size() < 12) { viol("nonce-short", fmt("%s: nonce of %zu bytes", g_op.c_str(), iv.size())); return; }
    auto r = g_used.emplace(std::make_pair(key, iv), g_op);
    EXPECT(r.second, "key-nonce-reuse", "%s encrypts with a key and nonce already used by %s (key %s nonce %s)", g_op.c_str(), r.first->second.c_str(), hex(key, 6).c_str(), hex(iv).c_str());
    ev("encryptions");
}
static void hook(const CallRec &c)
{
    if (c.op == OP_ENC && c.ok) { Bytes k = c.key; k.push_back((uint8_t)c.alg); use(k, c.iv); }
}

struct Got {
    bool ok = false;
    std::vector<std::pair<std::string, Bytes>> raw;      // secrets that are random bytes
    std::vector<std::pair<std::string, Bytes>> scal;     // EC private scalars
    std::vector<std::pair<std::string, Bytes>> pubs;     // generated public keys
    std::vector<Bytes> result;                           // other outputs that must differ between runs
    void add(const char *n, const wickr_buffer_t *b) { raw.emplace_back(n, B(b)); }
    void add(const char *n, const Bytes &b) { raw.emplace_back(n, b); }
    void key(const char *n, const wickr_ec_key_t *k) { scal.emplace_back(n, scalar_of(k)); pubs.emplace_back(n, B(k->pub_data)); }
};
typedef std::function<Got(Rng &)> OpFn;
struct OpDef { const char *name; OpFn fn; bool makes_secret; };
static std::vector<OpDef> g_ops;

static void got_gen(Got &g, const wickr_ctx_gen_result_t *x, bool new_root, bool new_recovery, bool new_sig)
{
    g.ok = true;
    if (new_recovery) g.add("recovery key", x->recovery_key->key_data);
    if (new_root) { g.add("node storage root", x->root_keys->node_storage_root->key_data); g.add("remote storage root", x->root_keys->remote_storage_root->key_data); }
    if (new_sig) g.key("account signing key", x->root_keys->node_signature_root);
    g.key("device signing key", x->ctx->id_chain->node->sig_key);
    g.add("device identifier", x->ctx->id_chain->node->identifier);
}
// {recovered salt, nonce} of an export produced by kdf_cipher
static bool split_export(const Bytes &b, Bytes &salt, Bytes &iv)
{
    if (b.size() < 1 + 16 + 1 + 12) return false;
    salt = sub(b, 1, 16);
    iv = sub(b, 18, 12);
    return b[0] == KDF_ID_SCRYPT_17 && b[17] == CIPHER_ID_AES256_GCM;
}
static Got got_export(const wickr_buffer_t *b)
{
    Got g;
    if (!b) return g;
    g.ok = true;
    Bytes salt, iv;
    if (!split_export(B(b), salt, iv)) { viol("export-format", "an export has an unexpected form"); return g; }
    g.add("key derivation salt", salt);
    g.add("nonce", iv);
    g.result.push_back(B(b));
    return g;
}
static Got got_box(const wickr_cipher_result_t *c) { Got g; if (!c) return g; g.ok = true; g.add("nonce", c->iv); return g; }

static uint32_t INTERVAL(Rng &r) { return r.pick<uint32_t>({ 1, 1, 2, 3, 64, 512, 32767, 32768 }); }
static void build_ops()
{
    wickr_crypto_engine_t e = mon_engine();
    auto add = [&](const char *n, OpFn f) { g_ops.push_back({ n, f, true }); };
    add("new device info", [e](Rng &r) { Got g; auto s = mk(r.bytes(20)); auto d = own(wickr_dev_info_create_new(&e, s.get())); if (!d) return g; g.ok = true; g.add("device salt", d->dev_salt); g.result = { B(d->msg_proto_id), B(d->srv_comm_id) }; return g; });
    add("new account", [e](Rng &r) { Got g; auto id = mk(r.bytes(32)); auto x = own(wickr_ctx_gen_new(e, W[0].ctx()->dev_info, id.get())); if (x) got_gen(g, x.get(), true, true, true); return g; });
    add("new account with a given signing key", [e](Rng &r) { Got g; auto id = mk(r.bytes(32)); auto x = own(wickr_ctx_gen_new_with_sig_key(e, W[0].ctx()->dev_info, W[0].dev.gen->root_keys->node_signature_root, id.get())); if (x) got_gen(g, x.get(), true, true, false); return g; });
    add("new device from root keys", [e](Rng &r) { Got g; auto id = mk(W[0].dev.root_id); auto x = own(wickr_ctx_gen_with_root_keys(e, W[1].ctx()->dev_info, W[0].dev.gen->root_keys, id.get())); if (x) got_gen(g, x.get(), false, true, false); return g; });
    add("new device from recovery data", [e](Rng &r) {
        Got g;
        static H<wickr_buffer_t> rec;
        if (!rec) rec = own(wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get()));
        auto id = mk(W[0].dev.root_id);
        auto x = own(wickr_ctx_gen_with_recovery(e, W[1].ctx()->dev_info, rec.get(), W[0].dev.gen->recovery_key, id.get()));
        if (x) got_gen(g, x.get(), false, false, false);
        return g;
    });
    add("root keys", [e](Rng &r) { Got g; auto x = own(wickr_root_keys_generate(&e)); if (!x) return g; g.ok = true; g.key("account signing key", x->node_signature_root); g.add("node storage root", x->node_storage_root->key_data); g.add("remote storage root", x->remote_storage_root->key_data); return g; });
    add("ephemeral key pair", [](Rng &r) { Got g; auto k = own(wickr_ctx_ephemeral_keypair_gen(W[r.below(W.size())].ctx(), r.u64())); if (!k) return g; g.ok = true; g.key("ephemeral key", k->ec_key); return g; });
    add("device identity", [e](Rng &r) { Got g; auto k = own(wickr_node_identity_gen(&e, W[0].dev.chain()->root, NULL)); if (!k) return g; g.ok = true; g.key("device signing key", k->sig_key); g.add("device identifier", k->identifier); return g; });
    add("seal a message", [](Rng &r) {
        Got g;
        Actor &s = W[r.below(W.size())];
        std::vector<const Actor *> to;
        size_t n = r.range(1, 5);
        for (size_t i = 0; i < n; i++) to.push_back(&W[r.below(W.size())]);
        uint8_t old = s.ctx()->pkt_enc_version;
        s.ctx()->pkt_enc_version = (uint8_t)r.range(2, 4);
        auto nodes = nodes_for(to);
        auto p = make_payload(gen_payload(r, 300));
        auto x = own(wickr_ctx_encode_packet(s.ctx(), p.get(), nodes.get()));
        s.ctx()->pkt_enc_version = old;
        if (!x) return g;
        g.ok = true;
        g.add("message key", x->packet_key->key_data);
        auto ser = own(wickr_packet_serialize(x->packet));
        ref::Split sp;
        ref::Opened o;
        if (!ser || !ref::split(B(ser), sp) || !ref::open_header(sp, ref::header_key(s.dev.root_id, s.dev.node_id), o).empty()) { viol("packet-form", "a sealed message cannot be taken apart"); return g; }
        g.pubs.emplace_back("message exchange key", o.exch_pub);
        g.add("header nonce", sub(sp.hdr, 1, 12));
        g.add("payload nonce", sub(sp.pl, 1, 12));
        for (auto &x : o.ex) g.add("exchange nonce", sub(x.data, 1, 16));
        return g;
    });
    add("context export", [](Rng &r) { auto p = mk(r.bytes(9)); auto x = own(wickr_ctx_export(W[r.below(W.size())].ctx(), p.get())); return got_export(x.get()); });
    add("storage key export", [](Rng &r) { auto p = mk(r.bytes(9)); auto x = own(wickr_ctx_export_storage_keys(W[r.below(W.size())].ctx(), p.get())); return got_export(x.get()); });
    add("recovery key export", [](Rng &r) { auto p = mk(r.bytes(9)); auto x = own(wickr_ctx_gen_export_recovery_key_passphrase(W[r.below(W.size())].dev.gen.get(), p.get())); return got_export(x.get()); });
    add("recovery data", [](Rng &r) { Got g; auto x = own(wickr_ctx_gen_result_make_recovery(W[r.below(W.size())].dev.gen.get())); if (!x) return g; g.ok = true; g.add("nonce", sub(B(x), 1, 12)); return g; });
    add("root key export", [e](Rng &r) { auto x = own(wickr_root_keys_export(W[0].dev.gen->root_keys, &e, W[0].dev.gen->recovery_key)); return got_box(x.get()); });
    add("local storage", [](Rng &r) { auto p = mk(gen_bytes(r, 200)); auto x = own(wickr_ctx_cipher_local(W[r.below(W.size())].ctx(), p.get())); return got_box(x.get()); });
    add("remote storage", [](Rng &r) { auto p = mk(gen_bytes(r, 200)); auto x = own(wickr_ctx_cipher_remote(W[r.below(W.size())].ctx(), p.get())); return got_box(x.get()); });
    add("passphrase derivation", [e](Rng &r) { Got g; auto p = mk(r.bytes(9)); wickr_kdf_algo_t a = KDF_SCRYPT_2_17; auto x = own(wickr_perform_kdf(a, p.get())); if (!x) return g; g.ok = true; g.add("key derivation salt", x->meta->salt); return g; });
    add("passphrase derivation (bcrypt)", [](Rng &r) { Got g; auto p = mk(B("passphrase")); wickr_kdf_algo_t a = KDF_BCRYPT_15; auto x = own(wickr_perform_kdf(a, p.get())); if (!x) return g; g.ok = true; g.result.push_back(B(x->meta->salt)); return g; });
    add("key derivation (HKDF)", [](Rng &r) { Got g; auto p = mk(r.bytes(9)); wickr_kdf_algo_t a = r.pick<wickr_kdf_algo_t>({ KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512 }); auto x = own(wickr_perform_kdf(a, p.get())); if (!x) return g; g.ok = true; g.add("key derivation salt", x->meta->salt); return g; });
    add("random bytes", [e](Rng &r) { Got g; auto x = own(e.wickr_crypto_engine_crypto_random(r.range(16, 3000))); if (!x) return g; g.ok = true; g.add("random bytes", x.get()); return g; });
    add("cipher key", [e](Rng &r) { Got g; auto x = own(e.wickr_crypto_engine_cipher_key_random(r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR)); if (!x) return g; g.ok = true; g.add("cipher key", x->key_data); return g; });
    add("EC key", [e](Rng &r) { Got g; auto x = own(e.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); if (!x) return g; g.ok = true; g.key("EC key", x.get()); return g; });
    add("key agreement context", [e](Rng &r) { Got g; auto x = own(wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)); if (!x) return g; g.ok = true; g.key("agreement key", x->local_key); return g; });
    add("encryption without a given nonce", [e](Rng &r) { auto k = own(wickr_cipher_key_create(r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, mkp(Bytes(32, 7)))); auto p = mk(gen_bytes(r, 100)); auto x = own(e.wickr_crypto_engine_cipher_encrypt(p.get(), NULL, k.get(), NULL)); return got_box(x.get()); });
    add("payload encryption", [e](Rng &r) { auto k = own(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(Bytes(32, 8)))); auto p = make_payload(gen_payload(r, 100)); auto x = own(wickr_payload_encrypt(p.get(), &e, k.get())); return got_box(x.get()); });
    add("stream key", [e](Rng &r) { Got g; auto x = own(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, INTERVAL(r))); if (!x) return g; g.ok = true; g.add("stream key", x->cipher_key->key_data); g.add("stream evolution key", x->evolution_key); return g; });
    add("stream", [e](Rng &r) { Got g; wickr_stream_key_t *k = wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(Bytes(32, 9))), mkp(Bytes(32, 10)), 5); auto x = own(wickr_stream_ctx_create(e, k, STREAM_DIRECTION_ENCODE)); if (!x) { wickr_stream_key_destroy(&k); return g; } g.ok = true; g.add("stream nonce seed", x->iv_factory->seed); return g; });
    add("nonce generator", [e](Rng &r) { Got g; auto x = own(wickr_stream_iv_create(e, r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR)); if (!x) return g; g.ok = true; g.add("nonce seed", x->seed); return g; });
    add("transport root key", [e](Rng &r) { Got g; auto x = own(wickr_transport_root_key_create_random(&e, CIPHER_AES256_GCM, INTERVAL(r), INTERVAL(r))); if (!x) return g; g.ok = true; g.add("transport secret", x->secret); return g; });
    add("transport start", [e](Rng &r) {
        Got g;
        auto ep = make_ep("a", e, W[0].dev.chain(), r.chance(1, 2) ? W[1].pub.get() : NULL, INTERVAL(r));
        ep->start();
        if (ep->tx.size() != 1) return g;
        ref::PR h(sub(ep->tx[0], 10, ep->tx[0].size() - 153));
        Bytes s, p;
        if (!h.bytes(2, s) || !ref::PR(s).bytes(3, p)) return g;
        g.ok = true;
        g.pubs.emplace_back("handshake key", p);
        return g;
    });
    add("transport answer", [e](Rng &r) {
        Got g;
        ref::Peer peer;
        peer.me = ref_chain(W[1].dev.chain());
        auto ep = make_ep("b", e, W[0].dev.chain(), NULL, INTERVAL(r));
        ep->feed(peer.start(r, true));
        if (ep->tx.size() != 1 || !peer.finish(ep->tx[0])) return g;
        g.ok = true;
        ref::PR h(sub(ep->tx[0], 10, ep->tx[0].size() - 153));
        Bytes s, p, d;
        if (!h.bytes(3, s) || !ref::PR(s).bytes(2, p) || !ref::PR(s).bytes(3, d)) return g;
        g.pubs.emplace_back("handshake key", p);
        g.add("transport secret", peer.secret);
        g.add("handshake nonce", sub(d, 1, 12));
        return g;
    });
    add("new device from recovery and passphrase", [e](Rng &r) {
        Got g;
        static H<wickr_buffer_t> rec, xk;
        static H<wickr_buffer_t> pass;
        if (!pass) { pass = mk(B("pw")); rec = own(wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get())); xk = own(wickr_ctx_gen_export_recovery_key_passphrase(W[0].dev.gen.get(), pass.get())); }
        auto id = mk(W[0].dev.root_id);
        auto x = own(wickr_ctx_gen_with_passphrase(e, W[1].ctx()->dev_info, xk.get(), pass.get(), rec.get(), id.get()));
        if (x) got_gen(g, x.get(), false, false, false);
        return g;
    });
    add("key agreement encryption", [e](Rng &r) {
        Got g;
        static H<wickr_ecdh_cipher_ctx_t> c, d;
        static H<wickr_ec_key_t> pub;
        if (!c) { c = own(wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)); d = own(wickr_ecdh_cipher_ctx_create(e, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)); pub = own(e.wickr_crypto_engine_ec_key_import(d->local_key->pub_data, false)); }
        auto m = own(wickr_kdf_meta_create(KDF_HKDF_SHA256, mkp(Bytes(16, 3)), mkp(Bytes(4, 4))));
        auto p = mk(gen_bytes(r, 100));
        auto x = own(wickr_ecdh_cipher_ctx_cipher(c.get(), p.get(), pub.get(), m.get()));
        return got_box(x.get());
    });
    add("key exchange", [e](Rng &r) {
        Got g;
        static H<wickr_ec_key_t> k;
        if (!k) k = own(e.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
        auto pk = own(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(Bytes(32, 14))));
        auto psk = r.chance(1, 2) ? mk(Bytes(5, 1)) : H<wickr_buffer_t>();
        auto raw = mk(Bytes(20, 2));
        uint8_t ver = (uint8_t)r.range(2, 4);
        auto x = own(r.chance(1, 2) ? wickr_key_exchange_create_with_packet_key(&e, W[0].dev.chain(), W[1].node.get(), k.get(), pk.get(), psk.get(), ver)
                                    : wickr_key_exchange_create_with_data(&e, W[0].dev.chain(), W[1].node.get(), k.get(), raw.get(), r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, psk.get(), ver));
        if (!x) return g;
        g.ok = true;
        g.add("exchange nonce", x->exchange_ciphertext->iv);
        return g;
    });
    add("file encryption", [e](Rng &r) {
        Got g;
        std::string a = fmt("%s/in%d", g_dir, (int)getpid()), b = fmt("%s/out%d", g_dir, (int)getpid());
        Bytes pt = gen_bytes(r, 3000);
        FILE *f = fopen(a.c_str(), "wb");
        if (!f) return g;
        fwrite(pt.data(), 1, pt.size(), f);
        fclose(f);
        Bytes kd(32, 11);
        auto k = own(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(kd)));
        bool ok;
        if (r.chance(1, 2)) ok = e.wickr_crypto_engine_encrypt_file(k.get(), a.c_str(), b.c_str());
        else { FILE *i = fopen(a.c_str(), "rb"), *o = fopen(b.c_str(), "wb"); ok = e.wickr_crypto_engine_encrypt_ofile(i, k.get(), o); fclose(i); fclose(o); }
        if (ok) {
            Bytes c(29);
            FILE *i = fopen(b.c_str(), "rb");
            if (i && fread(c.data(), 1, 29, i) == 29) { g.ok = true; g.add("nonce", sub(c, 1, 12)); kd.push_back(CIPHER_ID_AES256_GCM); use(kd, sub(c, 1, 12)); }
            if (i) fclose(i);
        }
        unlink(a.c_str());
        unlink(b.c_str());
        return g;
    });
}

void prop_init()
{
    snprintf(g_dir, sizeof g_dir, "/tmp/verif-c06-XXXXXX");
    if (!mkdtemp(g_dir)) _exit(3);
    Rng r(g_seed * 77 + 6);
    W.build(r, 4, mon_engine());
    build_ops();
}
void prop_fini() { rmdir(g_dir); }

static Got run(const OpDef &op, uint64_t inseed, uint64_t rseed, int64_t fail_after, Bytes &drawn, uint64_t &calls)
{
    Rng r(inseed);
    g_op = op.name;
    rand_seed(rseed);
    rand_state().record = true;
    rand_state().fail_after = fail_after;
    mon().on_call = hook;
    Got g = op.fn(r);
    mon().on_call = nullptr;
    drawn.clear();
    for (auto &d : rand_state().draws) { drawn.insert(drawn.end(), d.begin(), d.end()); }
    calls = rand_state().calls;
    rand_state().record = false;
    rand_state().fail_after = -1;
    rand_state().draws.clear();
    return g;
}
static void check(const OpDef &op, const Got &g, const Bytes &drawn)
{
    for (auto &s : g.raw) {
        EXPECT(s.second.size() >= 12, "secret-short", "%s: %s is only %zu bytes", op.name, s.first.c_str(), s.second.size());
        EXPECT(contains(drawn, s.second), "secret-not-drawn", "%s: the %s is not what the random generator returned during the operation", op.name, s.first.c_str());
        EXPECT(g_secrets.insert(s.second).second, "secret-repeated", "%s: the %s was already used for something else", op.name, s.first.c_str());
        ev("secrets");
        distinct(std::string(op.name) + "/" + s.first);
    }
    for (auto &s : g.scal) {
        // candidates are drawn until one is in range; only the top bits are masked
        EXPECT(s.second.size() == 66 && contains(drawn, sub(s.second, 1)), "scalar-not-drawn", "%s: the private part of the %s is not what the random generator returned during the operation", op.name, s.first.c_str());
        EXPECT(g_secrets.insert(s.second).second, "scalar-repeated", "%s: the %s was already generated before", op.name, s.first.c_str());
        ev("private_keys");
        distinct(std::string(op.name) + "/" + s.first);
    }
    for (auto &p : g.pubs) {
        auto x = g_pubs.emplace(p.second, op.name);
        EXPECT(x.second, "key-repeated", "%s: the %s was already generated by %s", op.name, p.first.c_str(), x.first->second.c_str());
        ev("public_keys");
    }
}
static void compare(const OpDef &op, const Got &a, const Got &b)
{
    auto diff = [&](const std::vector<std::pair<std::string, Bytes>> &x, const std::vector<std::pair<std::string, Bytes>> &y) {
        for (size_t i = 0; i < x.size() && i < y.size(); i++) EXPECT(x[i].second != y[i].second, "not-random", "%s: the %s stays the same when the random generator's output changes", op.name, x[i].first.c_str());
    };
    diff(a.raw, b.raw);
    diff(a.scal, b.scal);
    diff(a.pubs, b.pubs);
    for (size_t i = 0; i < a.result.size() && i < b.result.size(); i++) EXPECT(a.result[i] != b.result[i], "not-random", "%s: the result stays the same when the random generator's output changes", op.name);
    ev("compared");
}

static void streams(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    g_op = "stream packets";
    mon().on_call = hook;
    if (r.chance(1, 2)) {
        uint32_t ppe = r.pick<uint32_t>({ 1, 2, 3, 64, 512, 32768 });
        auto k = own(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, ppe));
        auto c = own(wickr_stream_ctx_create(e, wickr_stream_key_copy(k.get()), STREAM_DIRECTION_ENCODE));
        auto c2 = own(wickr_stream_ctx_create(e, wickr_stream_key_copy(k.get()), STREAM_DIRECTION_ENCODE));   // second stream under the same key
        REQUIRE(c && c2, "stream-create", "creating a stream failed");
        uint64_t s1 = 0, s2 = 0;
        size_t n = ppe == 32768 && r.chance(1, 12) ? 50500 : r.range(50, 900);     // sometimes a whole evolution interval under one key
        View p(r.bytes(16));
        for (size_t i = 0; i < n; i++) {
            uint64_t &s = i % 3 ? s1 : s2;
            auto x = own(wickr_stream_ctx_encode((i % 3 ? c : c2).get(), p, NULL, s += r.chance(1, 50) ? r.range(1, ppe) : 1));
            REQUIRE(x, "stream-encode", "encrypting on a stream failed");
            ev("stream_packets");
            if (r.chance(1, 60)) { auto y = own(wickr_stream_ctx_copy(c.get())); REQUIRE(y, "stream-copy", "copying a stream failed"); c = std::move(y); }   // only the copy goes on
        }
        distinct(fmt("stream:%u", ppe));
    } else {
        auto f = own(wickr_stream_iv_create(e, r.chance(2, 3) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR));
        REQUIRE(f, "iv-create", "creating a nonce generator failed");
        std::set<Bytes> seen;
        size_t n = r.chance(1, 10) ? 70000 : r.range(100, 3000);
        if (r.chance(1, 3)) f->gen_count = r.pick<uint64_t>({ 250, 65530, 0xfffffff0ull, 0xffffffff0ull });
        for (size_t i = 0; i < n; i++) {
            auto x = own(wickr_stream_iv_generate(f.get()));
            REQUIRE(x && x->length == f->cipher.iv_len, "iv-generate", "generating a nonce failed");
            EXPECT(seen.insert(B(x)).second, "nonce-repeated", "a nonce generator repeats itself after %zu values", i);
            ev("nonces");
            if (r.chance(1, 200)) { auto y = own(wickr_stream_iv_copy(f.get())); REQUIRE(y, "iv-copy", "copying a nonce generator failed"); f = std::move(y); }
        }
    }
    mon().on_call = nullptr;
}
// a whole conversation between two transports
static void transports(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    g_op = "transport packets";
    mon().on_call = hook;
    auto a = make_ep("a", e, W[0].dev.chain(), NULL, r.pick<uint32_t>({ 1, 3, 64 })), b = make_ep("b", e, W[1].dev.chain(), NULL, 5);
    a->start();
    pump(*a, *b);
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && b->status() == TRANSPORT_STATUS_ACTIVE, "transport", "two honest endpoints do not reach the active state");
    for (int i = 0, n = (int)r.range(10, 60); i < n; i++) { Endpoint &x = r.chance(1, 2) ? *a : *b; x.send(Bytes(1 + i % 3, 1)); if (r.chance(1, 4)) pump(*a, *b); }
    pump(*a, *b);
    ev("conversations");
    mon().on_call = nullptr;
}

void prop_case(uint64_t k, Rng &r)
{
    for (int i = 0; i < 24; i++) {
        const OpDef &op = g_ops[(k * 24 + i) % g_ops.size()];
        uint64_t in = r.u64(), ra = r.u64(), rb = r.u64(), calls = 0, c2;
        Bytes drawn;
        Got a = run(op, in, ra, -1, drawn, calls);
        REQUIRE(a.ok, "op-failed", "%s failed", op.name);
        EXPECT(calls > 0, "no-random", "%s does not ask the random generator for anything", op.name);
        check(op, a, drawn);
        Got b = run(op, in, rb, -1, drawn, c2);
        REQUIRE(b.ok, "op-failed", "%s failed", op.name);
        check(op, b, drawn);
        compare(op, a, b);
        ev("operations", 2);
        // the generator failing: nothing may come out that was not drawn
        if (r.chance(1, 2)) {
            int64_t at = (int64_t)r.below(calls);
            Got f = run(op, in, r.u64(), at, drawn, c2);
            if (f.ok) { check(op, f, drawn); ev("survived_generator_failure"); }
            else ev("refused_without_randomness");
        }
    }
    streams(r);
    if (r.chance(1, 2)) transports(r);
}
}
