// C29: operations on objects that are not shared between threads, and read-only operations on shared ones, do not
// race and give what they give alone. ThreadSanitizer watches every access of the library's code; every result is
// compared with that of the same operations run one thread at a time afterwards.
#define OPS_WORLD static thread_local World W
#include "ops.hpp"
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
namespace v {
const char *PROP_ID = "C29";
static char g_dir[64];

// ------------------------------------------------------------------ operations the catalogue does not have
static std::string txt(wickr_buffer_t *b) { auto o = own(b); return dump(o.get()); }
static Oc plain(const char *name, std::function<std::string()> f)
{
    Oc o;
    auto s = std::make_shared<std::string>();
    o.name = name;
    o.call = [=] { *s = f(); return !s->empty(); };
    o.out = [=] { return *s; };
    return o;
}
static void ops_more()
{
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 200))); return plain("base64", [=] { std::string s; for (int i = 0; i < 6; i++) { auto t = own(getBase64FromData(&d->b)); auto b = own(getDataFromBase64(t.get())); if (!same(b.get(), &d->b)) return std::string(); s += dump(t.get()); } return s; }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 200))); return plain("hex", [=] { std::string s; for (int i = 0; i < 6; i++) { auto t = own(getHexStringFromData(&d->b)); auto b = own(getDataFromHexString(t.get())); if (!same(b.get(), &d->b)) return std::string(); s += dump(t.get()); } return s; }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(5 * r.range(1, 30))); return plain("base32", [=] { std::string s; for (int i = 0; i < 6; i++) { auto t = own(base32_encode(&d->b)); auto b = own(base32_decode(t.get())); if (!same(b.get(), &d->b)) return std::string(); s += dump(t.get()); } return s; }); });
    OPS.push_back([](Rng &r) { auto *a = &any(r); return plain("fingerprint_text", [=] { auto f = own(wickr_identity_get_fingerprint(a->dev.chain()->root, E)); std::string s; for (auto m : { FINGERPRINT_OUTPUT_SHORT, FINGERPRINT_OUTPUT_LONG }) s += txt(wickr_fingerprint_get_b32(f.get(), m)) + txt(wickr_fingerprint_get_hex(f.get(), m)); return s; }); });
    OPS.push_back([](Rng &r) { auto *a = &any(r); return plain("serialize_everything", [=] {
        auto &g = *W[0].dev.gen;
        auto si = own(wickr_identity_sign(a->dev.chain()->node, &E, a->dev.chain()->node->identifier));
        std::string s = txt(wickr_ctx_serialize(a->ctx())) + txt(wickr_identity_serialize(a->dev.chain()->node)) + txt(wickr_identity_chain_serialize_private(a->dev.chain())) + txt(wickr_node_serialize(a->node.get())) + txt(wickr_ephemeral_keypair_serialize(a->eph.get())) + txt(wickr_root_keys_serialize(g.root_keys)) + txt(wickr_storage_keys_serialize(a->ctx()->storage_keys)) + txt(wickr_cipher_key_serialize(g.recovery_key)) + txt(wickr_ecdsa_result_serialize(si.get()));
        auto q = own(wickr_ecdsa_result_serialize(si.get())); auto p = own(wickr_ecdsa_result_create_from_buffer(q.get()));
        return same(p.get(), si.get()) ? s : std::string(); }); });
    OPS.push_back([](Rng &r) { auto ps = spec(r); auto pl = std::make_shared<H<wickr_payload_t>>(make_payload(ps)); return plain("payload_serialize", [=] { auto b = own(wickr_payload_serialize(pl->get())); auto p = own(wickr_payload_create_from_buffer(b.get())); auto c = own(wickr_payload_copy(p.get())); return payload_matches(c.get(), ps) ? dump(b.get()) : std::string(); }); });
    OPS.push_back([](Rng &r) { auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, (uint32_t)r.range(1, 99))); return plain("stream_key_serialize", [=] { auto b = own(wickr_stream_key_serialize(k->get())); auto p = own(wickr_stream_key_create_from_buffer(b.get())); auto c = own(wickr_stream_key_copy(p.get())); return dump(c.get()) == dump(k->get()) ? dump(b.get()) : std::string(); }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 300))); auto key = vw(r.bytes(32)); auto g = r.pick({ DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 });
        return plain("digest_hmac", [=] { auto h = own(E.wickr_crypto_engine_hmac_create(&d->b, &key->b, g)); if (!h || !E.wickr_crypto_engine_hmac_verify(&d->b, &key->b, g, h.get())) return std::string(); return dump(h.get()) + txt(E.wickr_crypto_engine_digest(&d->b, &key->b, g)); }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 100))); auto a = vw(r.bytes(9)); auto c = r.pick({ CIPHER_AES256_GCM, CIPHER_AES256_CTR }); auto k = sh(E.wickr_crypto_engine_cipher_key_random(c));
        return plain("engine_cipher", [=] { auto *ad = c.is_authenticated ? &a->b : NULL; auto x = own(E.wickr_crypto_engine_cipher_encrypt(&d->b, ad, k->get(), NULL)); auto b = own(wickr_cipher_result_serialize(x.get())); auto y = own(wickr_cipher_result_from_buffer(b.get())); auto p = own(E.wickr_crypto_engine_cipher_decrypt(y.get(), ad, k->get(), false)); return same(p.get(), &d->b) ? dump(x.get()) : std::string(); }); });
    OPS.push_back([](Rng &r) { auto p = vw(r.bytes(10)), salt = vw(r.bytes(16)); auto a = r.pick({ KDF_SCRYPT_2_17, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA512 }); auto info = sh(mkp(r.bytes(7)));
        return plain("kdf", [=] {
            auto m = own(a.algo_id == KDF_HMAC_SHA2 ? wickr_kdf_meta_create(a, wickr_buffer_copy(&salt->b), wickr_buffer_copy(info->get())) : NULL);
            auto x = own(m ? wickr_perform_kdf_meta(m.get(), &p->b) : wickr_perform_kdf(a, &p->b));
            if (!x) return std::string();
            auto again = own(wickr_perform_kdf_meta(x->meta, &p->b));
            return again && same(again->hash, x->hash) ? dump(x.get()) : std::string(); }); });
    OPS.push_back([](Rng &r) { auto k = sh(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)), o = sh(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); (void)r;
        return plain("ecdh", [=] { auto a = own(E.wickr_crypto_engine_gen_shared_secret(k->get(), o->get())), b = own(E.wickr_crypto_engine_gen_shared_secret(o->get(), k->get())); auto pub = own(E.wickr_crypto_engine_ec_key_import(k->get()->pri_data, true)); return a && same(a.get(), b.get()) && pub && same(pub->pub_data, k->get()->pub_data) ? dump(a.get()) : std::string(); }); });
    OPS.push_back([](Rng &r) { Bytes b = r.bytes(r.range(1, 9000)); auto k = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM));
        // (the address of a local names the file: each thread has its own)
        return plain("file_cipher", [=] {
            std::string p = fmt("%s/%d.%p", g_dir, (int)gettid(), (const void *)k.get());
            FILE *f = fopen((p + "p").c_str(), "wb");
            if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) _exit(3);
            bool ok = openssl_aes256_file_encrypt(k->get(), (p + "p").c_str(), (p + "c").c_str()) && openssl_aes256_file_decrypt(k->get(), (p + "c").c_str(), (p + "d").c_str(), true);
            Bytes got(b.size() + 1), enc(b.size() + 100);
            if ((f = fopen((p + "d").c_str(), "rb"))) { got.resize(fread(got.data(), 1, got.size(), f)); fclose(f); }
            if ((f = fopen((p + "c").c_str(), "rb"))) { enc.resize(fread(enc.data(), 1, enc.size(), f)); fclose(f); }
            auto h = own((wickr_buffer_t *)NULL);
            if ((f = fopen((p + "p").c_str(), "rb"))) { h = own(E.wickr_crypto_engine_digest_file(f, DIGEST_SHA_256)); fclose(f); }
            for (auto x : { "p", "c", "d" }) unlink((p + x).c_str());
            return ok && got == b && B(h) == ref::sha(256, b) ? hex(enc, 100000) : std::string(); }); });
    OPS.push_back([](Rng &r) { auto *a = &any(r), *b = &any(r); int mode = (int)r.below(4); uint32_t evo = (uint32_t)r.pick({ 1, 32768 }); std::vector<Bytes> m; for (uint64_t i = r.range(1, 5); i; i--) m.push_back(r.bytes(r.range(1, 60)));
        return plain("transport_conversation", [=] {
            auto x = make_ep("a", E, a->dev.chain(), mode & 1 ? b->pub.get() : NULL, evo), y = make_ep("b", E, b->dev.chain(), mode & 2 ? a->pub.get() : NULL, evo);
            x->start();
            pump(*x, *y);
            for (size_t i = 0; i < m.size(); i++) { (i % 2 ? y : x)->send(m[i]); pump(*x, *y); }
            std::vector<Bytes> fx, fy;
            for (size_t i = 0; i < m.size(); i++) (i % 2 ? fx : fy).push_back(m[i]);
            std::string s;
            for (auto &z : x->tx) s += hex(z, 100000);
            for (auto &z : y->tx) s += hex(z, 100000);
            return x->rx == fx && y->rx == fy ? s : std::string(); }); });
}

// ------------------------------------------------------------------ read-only operations on objects all threads share
static std::unique_ptr<World> SW;
struct Shared {
    H<wickr_buffer_t> pass, pkt, ctxbuf, salt, text, hexs, b64, b32, export_;
    H<wickr_ctx_packet_t> parsed;
    H<wickr_payload_t> payload;
    H<wickr_cipher_result_t> local;
    H<wickr_stream_key_t> sk;
    H<wickr_transport_root_key_t> trk;
    H<wickr_fingerprint_t> fp;
    H<wickr_kdf_meta_t> meta;
    H<wickr_ec_key_t> ec;
    H<wickr_transport_packet_t> tpkt;
    PayloadSpec ps;
};
static Shared *SH;
static std::vector<Mk> SHARED;
static Actor &sa() { return (*SW)[0]; }
static Actor &sb() { return (*SW)[1]; }
static void make_shared_objects(Rng &r)
{
    SW.reset(new World);
    SW->build(r, 2, E);
    SH = new Shared;
    SH->pass = mk(r.bytes(9));
    SH->ps = gen_payload(r, 200);
    SH->payload = make_payload(SH->ps);
    auto n = nodes_for({ &sa(), &sb() });
    auto e = own(wickr_ctx_encode_packet(sb().ctx(), SH->payload.get(), n.get()));
    REQUIRE(e, "not-made", "a packet is not sealed");
    SH->pkt = own(wickr_packet_serialize(e->packet));
    SH->parsed = own(wickr_ctx_parse_packet(sa().ctx(), SH->pkt.get(), sb().pub.get()));
    SH->ctxbuf = own(wickr_ctx_serialize(sa().ctx()));
    SH->export_ = own(wickr_ctx_export(sa().ctx(), SH->pass.get()));
    SH->salt = mk(r.bytes(64));
    SH->text = mk(r.bytes(40));
    SH->hexs = own(getHexStringFromData(SH->text.get()));
    SH->b64 = own(getBase64FromData(SH->text.get()));
    SH->b32 = own(base32_encode(SH->text.get()));
    SH->local = own(wickr_ctx_cipher_local(sa().ctx(), SH->text.get()));
    SH->sk = own(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3));
    SH->trk = own(wickr_transport_root_key_create_random(&E, CIPHER_AES256_GCM, 5, 6));
    SH->fp = own(wickr_identity_get_fingerprint(sa().dev.chain()->root, E));
    SH->meta = own(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkp(r.bytes(16)), mkp(r.bytes(5))));
    SH->ec = own(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
    wickr_transport_packet_meta_t m;
    wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521);
    auto tp = own(wickr_transport_packet_create(m, mkp(r.bytes(30))));
    REQUIRE(tp && wickr_transport_packet_sign(tp.get(), &E, sa().dev.chain()), "not-made", "a transport packet is not signed");
    auto tb = own(wickr_transport_packet_serialize(tp.get()));
    SH->tpkt = own(wickr_transport_packet_create_from_buffer(tb.get()));
    REQUIRE(SH->parsed && SH->export_ && SH->local && SH->sk && SH->trk && SH->fp && SH->meta && SH->ec && SH->tpkt, "not-made", "a shared object could not be made");
}
static std::string shared_state()
{
    std::string s = dump(&*SH->pass) + dump(SH->pkt.get()) + dump(SH->ctxbuf.get()) + dump(SH->salt.get()) + dump(SH->text.get()) + dump(SH->hexs.get()) + dump(SH->b64.get()) + dump(SH->b32.get()) + dump(SH->export_.get()) + dump(SH->parsed.get()) + dump(SH->payload.get()) + dump(SH->local.get()) + dump(SH->sk.get()) + dump(SH->trk.get()) + dump(SH->fp.get()) + dump(SH->meta.get()) + dump(SH->ec.get()) + dump(SH->tpkt.get());
    for (auto &a : SW->a) s += dump(a.dev.gen.get()) + dump(a.eph.get()) + bytes_of(a.node.get()) + bytes_of(a.pub.get());
    return s;
}
static void SHP(const char *name, std::function<std::string()> f) { SHARED.push_back([=](Rng &) { return plain(name, f); }); }
template <class T> static std::string dd(T *p) { auto o = own(p); return o ? dump(o.get()) : std::string(); }
static void ops_shared()
{
    SHP("shared_ctx_copy", [] { return dd(wickr_ctx_copy(sa().ctx())); });
    SHP("shared_ctx_serialize", [] { return txt(wickr_ctx_serialize(sa().ctx())); });
    SHP("shared_ctx_export", [] { return dd(wickr_ctx_export(sa().ctx(), SH->pass.get())); });
    SHP("shared_ctx_import", [] { auto d = own(wickr_dev_info_copy(sa().ctx()->dev_info)); auto c = own(wickr_ctx_import(E, d.get(), SH->export_.get(), SH->pass.get())); if (c) d.release(); return c ? dump(c.get()) : ""; });
    SHP("shared_ctx_from_buffer", [] { auto d = own(wickr_dev_info_copy(sa().ctx()->dev_info)); auto c = own(wickr_ctx_create_from_buffer(E, d.get(), SH->ctxbuf.get())); if (c) d.release(); return c ? dump(c.get()) : ""; });
    SHP("shared_cipher_local", [] { auto x = own(wickr_ctx_cipher_local(sa().ctx(), SH->text.get())); auto b = own(wickr_ctx_decipher_local(sa().ctx(), x.get())); return same(b.get(), SH->text.get()) ? dump(x.get()) : ""; });
    SHP("shared_cipher_remote", [] { auto x = own(wickr_ctx_cipher_remote(sa().ctx(), SH->text.get())); auto b = own(wickr_ctx_decipher_remote(sa().ctx(), x.get())); return same(b.get(), SH->text.get()) ? dump(x.get()) : ""; });
    SHP("shared_decipher_local", [] { return dd(wickr_ctx_decipher_local(sa().ctx(), SH->local.get())); });
    SHP("shared_export_storage", [] { return dd(wickr_ctx_export_storage_keys(sa().ctx(), SH->pass.get())); });
    SHP("shared_ephemeral_gen", [] { return dd(wickr_ctx_ephemeral_keypair_gen(sa().ctx(), 5)); });
    SHP("shared_make_recovery", [] { return dd(wickr_ctx_gen_result_make_recovery(sa().dev.gen.get())); });
    SHP("shared_export_recovery_key", [] { return dd(wickr_ctx_gen_export_recovery_key_passphrase(sa().dev.gen.get(), SH->pass.get())); });
    SHP("shared_gen_result_copy", [] { return dd(wickr_ctx_gen_result_copy(sa().dev.gen.get())); });
    for (int v = 2; v <= 4; v++) SHARED.push_back([v](Rng &r) { std::vector<const Actor *> to; for (uint64_t i = r.range(1, 3); i; i--) to.push_back(&any(r)); auto n = fresh_nodes(to); auto *t = to[0]; auto c = sender(sa(), (uint8_t)v);
        // a shared sender, its message, and recipients of this thread's own
        return plain(v == 4 ? "shared_encode" : "shared_identity_encode", [=] {
            auto e = own(v == 4 ? wickr_ctx_encode_packet(sa().ctx(), SH->payload.get(), n->get()) : wickr_ctx_encode_packet(c->get(), SH->payload.get(), n->get()));
            if (!e) return std::string();
            auto why = opens(*t, sa(), e->packet, SH->ps);
            return why.empty() ? dump(e->packet) : std::string(); }); });
    SHARED.push_back([](Rng &) { auto c = sh(fresh_pub(sb()).release()); return plain("shared_parse", [=] { auto p = own(wickr_ctx_parse_packet(sa().ctx(), SH->pkt.get(), c->get())); return parsed_ok(p.get()) ? dump(p.get()) : std::string(); }); });
    SHARED.push_back([](Rng &) { auto c = sh(fresh_pub(sb()).release()); return plain("shared_parse_no_decode", [=] { auto p = own(wickr_ctx_parse_packet_no_decode(sa().ctx(), SH->pkt.get(), c->get())); return p ? dump(p.get()) : std::string(); }); });
    SHP("shared_decode", [] { auto d = own(wickr_ctx_decode_packet(sa().ctx(), SH->parsed.get(), sa().eph->ec_key)); return d && d->err == E_SUCCESS && payload_matches(d->decrypted_payload, SH->ps) ? dump(d.get()) : std::string(); });
    SHP("shared_packet", [] { auto p = own(wickr_packet_create_from_buffer(SH->pkt.get())); auto q = own(wickr_packet_copy(SH->parsed->packet)); auto b = own(wickr_packet_serialize(SH->parsed->packet)); return same(p.get(), q.get()) && same(b.get(), SH->pkt.get()) ? dump(b.get()) : std::string(); });
    SHP("shared_payload", [] { auto b = own(wickr_payload_serialize(SH->payload.get())); auto c = own(wickr_payload_copy(SH->payload.get())); return payload_matches(c.get(), SH->ps) ? dump(b.get()) : std::string(); });
    SHP("shared_identities", [] { std::string s = txt(wickr_identity_chain_serialize(sa().dev.chain())) + txt(wickr_node_serialize(sb().node.get())) + txt(wickr_ephemeral_keypair_serialize(sa().eph.get())); auto c = own(wickr_identity_chain_copy(sa().dev.chain())); auto n = own(wickr_node_copy(sb().node.get())); return s + dump(c.get()) + bytes_of(n.get()); });
    SHP("shared_ephemeral_verify", [] { return std::string(wickr_ephemeral_keypair_verify_owner(sa().eph.get(), &E, sa().dev.chain()->node) ? "ok" : ""); });
    SHP("shared_identity_sign", [] { auto s = own(wickr_identity_sign(sa().dev.chain()->node, &E, SH->text.get())); return s && ref_signed(sa().dev.chain()->node->sig_key, SH->text.get(), s.get()) ? dump(s.get()) : std::string(); });
    SHP("shared_fingerprints", [] { auto f = own(wickr_identity_get_fingerprint(sa().dev.chain()->root, E)), g = own(wickr_identity_get_bilateral_fingerprint(sa().dev.chain()->root, sb().dev.chain()->root, E)); std::string s; for (auto m : { FINGERPRINT_OUTPUT_SHORT, FINGERPRINT_OUTPUT_LONG }) s += txt(wickr_fingerprint_get_b32(SH->fp.get(), m)) + txt(wickr_fingerprint_get_hex(SH->fp.get(), m)); return dump(f.get()) + dump(g.get()) + s; });
    SHP("shared_encodings", [] { return txt(getHexStringFromData(SH->text.get())) + txt(getBase64FromData(SH->text.get())) + txt(base32_encode(SH->text.get())) + txt(getDataFromHexString(SH->hexs.get())) + txt(getDataFromBase64(SH->b64.get())) + txt(base32_decode(SH->b32.get())); });
    SHP("shared_stream_key", [] { auto b = own(wickr_stream_key_serialize(SH->sk.get())); auto s = own(wickr_stream_ctx_create(E, wickr_stream_key_copy(SH->sk.get()), STREAM_DIRECTION_ENCODE)); auto x = own(wickr_stream_ctx_encode(s.get(), SH->text.get(), SH->salt.get(), 1)); return dump(b.get()) + dump(x.get()); });
    SHP("shared_transport_root_key", [] { auto k = own(wickr_transport_root_key_to_stream_key(SH->trk.get(), &E, SH->salt.get(), SH->text.get(), STREAM_DIRECTION_ENCODE)); auto c = own(wickr_transport_root_key_copy(SH->trk.get())); return k && c ? dump(k.get()) + dump(c.get()) : std::string(); });
    SHP("shared_kdf", [] { auto x = own(wickr_perform_kdf_meta(SH->meta.get(), SH->text.get())); return txt(wickr_kdf_meta_serialize(SH->meta.get())) + (x ? dump(x.get()) : ""); });
    SHP("shared_engine", [] { auto *k = sa().ctx()->storage_keys->local; auto x = own(E.wickr_crypto_engine_cipher_encrypt(SH->text.get(), SH->salt.get(), k, NULL)); auto p = own(E.wickr_crypto_engine_cipher_decrypt(x.get(), SH->salt.get(), k, true)); auto s = own(E.wickr_crypto_engine_ec_sign(SH->ec.get(), SH->text.get(), DIGEST_SHA_512)); auto z = own(E.wickr_crypto_engine_gen_shared_secret(SH->ec.get(), sa().eph->ec_key)); return same(p.get(), SH->text.get()) && s && E.wickr_crypto_engine_ec_verify(s.get(), SH->ec.get(), SH->text.get()) && z ? dump(x.get()) + dump(s.get()) + dump(z.get()) + txt(E.wickr_crypto_engine_digest(SH->text.get(), SH->salt.get(), DIGEST_SHA_256)) + txt(E.wickr_crypto_engine_hmac_create(SH->text.get(), SH->salt.get(), DIGEST_SHA_384)) : std::string(); });
    SHARED.push_back([](Rng &) { auto c = sh(fresh_pub(sa()).release()); return plain("shared_transport_packet", [=] { auto b = own(wickr_transport_packet_serialize(SH->tpkt.get())); auto q = own(wickr_transport_packet_copy(SH->tpkt.get())); return wickr_transport_packet_verify(SH->tpkt.get(), &E, c->get()) && q ? dump(b.get()) + dump(q.get()) : std::string(); }); });
    SHARED.push_back([](Rng &) { return plain("shared_transport_identities", [=] {
        auto x = make_ep("a", E, sa().dev.chain(), sb().pub.get(), 1), y = make_ep("b", E, sb().dev.chain(), sa().pub.get(), 1);
        x->start(); pump(*x, *y); x->send(B(SH->text)); pump(*x, *y);
        return y->rx.size() == 1 && y->rx[0] == B(SH->text) ? hex(x->tx.back()) : std::string(); }); });
}

// ------------------------------------------------------------------ threads
enum { MAXT = 6 };
struct Step { const char *name; bool ok; std::string why; uint64_t hash; uint64_t draws; };
struct Plan { int t; uint64_t seed, seeds; size_t rounds; std::vector<int> ops; bool concurrent; };   // ops: index, negative: shared
struct Result { std::vector<Step> steps; bool aborted = false; uint64_t yields = 0; std::vector<uint64_t> overlaps; };
// (relaxed: the monitor must not order the threads it watches)
static int g_running[MAXT];
static uint64_t g_arrived;
static int g_threads;
static void noise(Rng &r) { switch (r.below(12)) { case 0: case 1: sched_yield(); break; case 2: { for (volatile int i = (int)r.below(3000); i > 0; i--) { } } break; case 3: if (r.chance(1, 10)) usleep((useconds_t)r.below(200)); break; } }
static void thread_body(const Plan &p, Result &res)
{
    Rng r(p.seed), nz(p.seed * 31 + p.concurrent);
    rand_seed(p.seed ^ 0x5eed);
    mon().reset();
    if (p.concurrent) mon().on_call = [&](const CallRec &) { InHarness ih; noise(nz); res.yields++; };
    try {
        W.a.clear();
        W.build(r, 2, E);
    } catch (const CaseAbort &) { res.aborted = true; }
    for (size_t i = 0; i < p.rounds; i++) {
        Step s = { "?", false, "", 0, 0 };
        Rng q(r.u64());
        Oc o;
        if (!res.aborted) try { o = (p.ops[i] < 0 ? SHARED[-p.ops[i] - 1] : OPS[p.ops[i]])(q); s.name = o.name; } catch (const CaseAbort &) { res.aborted = true; }
        if (p.concurrent) {
            // all start the operation together
            __atomic_fetch_add(&g_arrived, 1, __ATOMIC_RELAXED);
            while (__atomic_load_n(&g_arrived, __ATOMIC_RELAXED) < (uint64_t)g_threads * (i + 1)) sched_yield();
            __atomic_store_n(&g_running[p.t], p.ops[i] + 1000, __ATOMIC_RELAXED);
            for (int k = 0; k < g_threads; k++) { int x = __atomic_load_n(&g_running[k], __ATOMIC_RELAXED); if (k != p.t && x) res.overlaps.push_back((uint64_t)std::min(x, p.ops[i] + 1000) * 10000 + std::max(x, p.ops[i] + 1000)); }
        }
        if (!res.aborted) {
            s.ok = o.call();
            if (s.ok) s.why = o.check();
            s.hash = fnv(o.out() + o.in());
        }
        if (p.concurrent) __atomic_store_n(&g_running[p.t], 0, __ATOMIC_RELAXED);
        s.draws = rand_state().bytes;
        res.steps.push_back(s);
    }
    mon().on_call = nullptr;
    W.a.clear();
}
struct Arg { const Plan *p; Result *r; };
static void *entry(void *a) { thread_body(*((Arg *)a)->p, *((Arg *)a)->r); return NULL; }
static void run(std::vector<Plan> &p, std::vector<Result> &r, bool together)
{
    pthread_t t[MAXT];
    Arg a[MAXT];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16 << 20);
    r.assign(p.size(), Result());
    g_arrived = 0;
    g_threads = (int)p.size();
    memset(g_running, 0, sizeof g_running);
    for (size_t i = 0; i < p.size(); i++) {
        p[i].concurrent = together;
        a[i] = { &p[i], &r[i] };
        if (pthread_create(&t[i], &at, entry, &a[i])) { fprintf(stderr, "harness: no thread\n"); _exit(3); }
        if (!together) pthread_join(t[i], NULL);
    }
    if (together) for (size_t i = 0; i < p.size(); i++) pthread_join(t[i], NULL);
    pthread_attr_destroy(&at);
}
void prop_init()
{
    E = mon_engine();
    strcpy(g_dir, "./c29.XXXXXX");
    if (!mkdtemp(g_dir)) _exit(3);
    ops_ctx(); ops_packets(); ops_identity(); ops_streams(); ops_handshake(); ops_more();
    ops_shared();
}
void prop_fini() { rmdir(g_dir); }
void prop_case(uint64_t k, Rng &r)
{
    signal(SIGALRM, SIG_DFL);
    alarm(180);                             // threads that wait for each other for ever
    make_shared_objects(r);
    std::string before = shared_state();
    size_t T = r.range(2, MAXT), rounds = r.range(3, 8);
    int style = (int)(k % 4);               // 0 the same operation everywhere, 1 anything, 2 shared, 3 mixed
    std::vector<Plan> p(T);
    for (size_t i = 0; i < T; i++) { p[i].t = (int)i; p[i].seed = r.u64(); p[i].rounds = rounds; }
    for (size_t j = 0; j < rounds; j++) {
        auto own_op = [&] { return (int)r.below(OPS.size()); };
        auto sh_op = [&] { return -1 - (int)r.below(SHARED.size()); };
        int same_op = style == 2 || (style == 3 && r.chance(1, 2)) ? sh_op() : own_op();
        bool all = style == 0 || r.chance(1, 3);
        for (size_t i = 0; i < T; i++) p[i].ops.push_back(all ? same_op : style == 1 ? own_op() : style == 2 ? sh_op() : r.chance(1, 2) ? own_op() : sh_op());
    }
    // two threads with the same inputs: what one of them leaves behind would show in the other
    if (r.chance(1, 3)) { p[1].seed = p[0].seed; p[1].ops = p[0].ops; ev("same_inputs"); }
    std::vector<Result> c, s;
    run(p, c, true);
    EXPECT(shared_state() == before, "shared-changed", "a read-only operation changed a shared object");
    run(p, s, false);
    EXPECT(shared_state() == before, "shared-changed", "a read-only operation changed a shared object");
    ev("threads", T);
    for (size_t i = 0; i < T; i++) {
        ev("yields", c[i].yields);
        for (auto x : c[i].overlaps) {
            ev("overlaps");
            auto nm = [&](int v) { v -= 1000; for (size_t a = 0; a < T; a++) for (size_t b = 0; b < rounds && b < c[a].steps.size(); b++) if (p[a].ops[b] == v) return std::string(c[a].steps[b].name) + (v < 0 ? " (shared)" : ""); return std::to_string(v); };
            distinct(nm((int)(x / 10000)) + " during " + nm((int)(x % 10000)));
        }
        EXPECT(!c[i].aborted && !s[i].aborted, "not-made", "thread %zu could not make its objects", i);
        for (size_t j = 0; j < rounds; j++) {
            auto &x = c[i].steps[j], &y = s[i].steps[j];
            ev(p[i].ops[j] < 0 ? "shared_operations" : "own_operations");
            ev((std::string("op_") + x.name).c_str());
            EXPECT(x.ok && x.why.empty(), std::string("failed:") + x.name, "%s in thread %zu of %zu: %s", x.name, i, T, x.ok ? x.why.c_str() : "fails");
            EXPECT(y.ok && y.why.empty(), std::string("failed-alone:") + y.name, "%s alone: %s", y.name, y.ok ? y.why.c_str() : "fails");
            EXPECT(x.hash == y.hash && x.draws == y.draws, std::string("differs:") + x.name, "%s in thread %zu of %zu gives another result than alone (%" PRIu64 "/%" PRIu64 " random bytes)", x.name, i, T, x.draws, y.draws);
            if (x.ok && x.hash == y.hash) ev("same_results");
        }
        if (i && p[i].seed == p[0].seed) for (size_t j = 0; j < rounds; j++) EXPECT(c[i].steps[j].hash == c[0].steps[j].hash, std::string("twins-differ:") + c[i].steps[j].name, "%s gives two results for the same inputs", c[i].steps[j].name);
    }
    delete SH;
    SH = nullptr;
    SW.reset();
    alarm(0);
}
} // namespace v
