// C14: parsing untrusted bytes is memory-safe, bounded, and leaves nothing behind.
// Each case takes one entry point, starts from valid encodings, and evolves hostile inputs guided by the edges of the
// library they reach (deterministically, so that a case can be replayed on its own).
#include "scen.hpp"
#include <time.h>
#include <sanitizer/allocator_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

// ------------------------------------------------------------------ edge counters
// (the registration runs before constructors do, so this has to be plain storage)
struct CtrRange { uint8_t *first, *second; };
static struct { CtrRange r[8]; size_t n; CtrRange *begin() { return r; } CtrRange *end() { return r + n; } } g_ctr;
extern "C" void __sanitizer_cov_8bit_counters_init(char *a, char *b)
{
    for (auto &x : g_ctr) if (x.first == (uint8_t *)a) return;
    if (g_ctr.n < 8) g_ctr.r[g_ctr.n++] = { (uint8_t *)a, (uint8_t *)b };
}
namespace v {
const char *PROP_ID = "C14";
static std::vector<uint8_t> g_seen;          // per counter: bit set of hit-count classes, since the case started
static std::set<size_t> g_ever;
static void cov_clear() { for (auto &x : g_ctr) memset(x.first, 0, x.second - x.first); }
static bool cov_new()
{
    bool nw = false;
    size_t base = 0;
    for (auto &x : g_ctr) {
        size_t n = x.second - x.first;
        for (size_t i = 0; i < n; i++) {
            if (i % 8 == 0 && i + 8 <= n && !*(uint64_t *)(x.first + i)) { i += 7; continue; }
            uint8_t c = x.first[i];
            if (!c) continue;
            uint8_t cls = c == 1 ? 1 : c == 2 ? 2 : c <= 4 ? 4 : c <= 8 ? 8 : c <= 32 ? 16 : 32;
            if (!(g_seen[base + i] & cls)) { g_seen[base + i] |= cls; nw = true; if (g_ever.insert(base + i).second) distinct(base + i + 1); }
        }
        base += n;
    }
    return nw;
}

// ------------------------------------------------------------------ allocation monitor
static thread_local bool t_armed = false;
static thread_local int64_t t_live = 0, t_peak = 0;
static void on_malloc(const volatile void *, size_t n) { if (t_armed) { t_live += (int64_t)n; if (t_live > t_peak) t_peak = t_live; } }
static void on_free(const volatile void *p) { if (t_armed && p) t_live -= (int64_t)__sanitizer_get_allocated_size((const void *)p); }

static World W;
static wickr_crypto_engine_t E;
static ref::Chain PEER;

// ------------------------------------------------------------------ structure-aware mutation
static Bytes pm(Rng &r, const Bytes &in, int depth = 0)
{
    ref::PR p(in);
    if (!p.ok || p.f.empty() || in.empty() || r.chance(1, 6)) return mutate(r, in);
    size_t i = r.below(p.f.size());
    auto put = [](ref::PW &w, const ref::PF &f, const Bytes &in) { w.b.insert(w.b.end(), in.begin() + f.off, in.begin() + f.off + f.len); };
    ref::PW w;
    int op = (int)r.below(14);
    for (size_t k = 0; k < p.f.size(); k++) {
        auto &f = p.f[k];
        if (k != i) { put(w, f, in); continue; }
        switch (op) {
            case 0: break;                                                   // dropped
            case 1: put(w, f, in); put(w, f, in); break;                     // twice
            case 2: { auto &o = p.f[r.below(p.f.size())]; if (o.wire == 2) w.s(f.num, o.s); else w.u(f.num, o.u); break; }   // another field's value
            case 3: if (f.wire == 2) w.s((int)r.range(1, 8), f.s); else w.u((int)r.range(1, 8), f.u); break;            // another field's number
            case 4: if (f.wire == 2) w.u(f.num, gen_u64(r)); else w.s(f.num, r.bytes(r.below(20))); break;              // another wire type
            case 5: if (f.wire == 2) w.s(f.num, Bytes()); else w.u(f.num, 0); break;                                   // empty
            case 6: if (f.wire == 2) { Bytes x = f.s; x.resize(r.below(x.size() + 1)); w.s(f.num, x); } else w.u(f.num, gen_u64(r)); break;
            case 7: if (f.wire == 2) { w.var(((uint64_t)f.num << 3) | 2); w.var(r.chance(1, 2) ? gen_u64(r) : f.s.size() + r.range(0, 3) - 1); w.b.insert(w.b.end(), f.s.begin(), f.s.end()); } else w.u(f.num, f.u ^ (1ull << r.below(64))); break;   // wrong length
            case 8: if (f.wire == 2) { int n = (int)r.range(2, 60); for (int q = 0; q < n; q++) w.s(f.num, f.s); } else for (int q = 0; q < 50; q++) w.u(f.num, gen_u64(r)); break;
            case 9: if (f.wire == 2) { Bytes x = f.s; Bytes t = r.bytes(r.range(1, 40)); x.insert(x.end(), t.begin(), t.end()); w.s(f.num, x); } else w.u(f.num, r.below(12)); break;
            default:
                if (f.wire == 2) w.s(f.num, depth < 5 && !f.s.empty() ? pm(r, f.s, depth + 1) : mutate(r, f.s));
                else w.u(f.num, r.chance(1, 2) ? gen_u64(r) : f.u + r.range(0, 4) - 2);
        }
    }
    return w.b.empty() ? mutate(r, in) : w.b;
}

// ------------------------------------------------------------------ exercising what was accepted
static Bytes some(Rng &r) { return r.bytes(r.range(1, 60)); }
template <class T> static void ser2(const char *what, H<wickr_buffer_t> s, std::function<H<T>(const wickr_buffer_t *)> parse, std::function<H<wickr_buffer_t>(const T *)> ser)
{
    if (!s) return;
    View w(B(s));
    auto o = parse(w);
    EXPECT(o, "reserialized-refused", "%s: an accepted object is refused after serializing it again", what);
    if (!o) return;
    auto s2 = ser(o.get());
    EXPECT(s2 && same(s2.get(), s.get()), "reserialized-differs", "%s: an accepted object serialized twice differs", what);
    ev("reserialized");
}
#define SER2(T, what, obj, PARSE, SER) do { auto f_ = [&](const wickr_buffer_t *b) { (void)b; return own(PARSE); }; auto g_ = [&](const T *x) { return own(SER(x)); }; ser2<T>(what, own(SER(obj)), f_, g_); } while (0)

static void use_key(Rng &r, wickr_ec_key_t *k)
{
    auto c = own(wickr_ec_key_copy(k));
    EXPECT(c && same(c.get(), k), "copy-differs", "copy of an accepted key differs");
    auto fx = own(wickr_ec_key_get_pubdata_fixed_len(k));
    auto id = mk(some(r));
    auto fp = own(wickr_fingerprint_gen(E, k, id.get(), WICKR_FINGERPRINT_TYPE_SHA512));
    View d(some(r));
    if (k->pri_data) {
        auto s = own(E.wickr_crypto_engine_ec_sign(k, d, DIGEST_SHA_512));
        if (s) E.wickr_crypto_engine_ec_verify(s.get(), k, d);
        auto x = own(E.wickr_crypto_engine_gen_shared_secret(k, W[0].eph->ec_key));
    }
    auto x = own(E.wickr_crypto_engine_gen_shared_secret(W[0].eph->ec_key, k));
    { auto s = own(E.wickr_crypto_engine_ec_sign(W[0].eph->ec_key, d, DIGEST_SHA_256)); EXPECT(!s || same_pub(k, W[0].eph->ec_key) || !E.wickr_crypto_engine_ec_verify(s.get(), k, d), "unusable", "a foreign signature verifies under an accepted key"); }
}
static void use_sig(Rng &r, const wickr_ecdsa_result_t *s)
{
    auto c = own(wickr_ecdsa_result_copy(s));
    EXPECT(c && same(c.get(), s), "copy-differs", "copy of an accepted signature differs");
    View d(some(r));
    EXPECT(!E.wickr_crypto_engine_ec_verify(s, W[0].eph->ec_key, d), "unusable", "an arbitrary signature verifies");
    auto raw = own(E.wickr_crypto_engine_ecdsa_to_raw(s));
    if (raw) { auto b = own(E.wickr_crypto_engine_ecdsa_from_raw(s->curve, s->digest_mode, raw.get())); }
}
static void use_cipher_result(Rng &r, const wickr_cipher_result_t *x)
{
    auto c = own(wickr_cipher_result_copy(x));
    EXPECT(c && same(c.get(), x), "copy-differs", "copy of an accepted ciphertext differs");
    wickr_cipher_result_is_valid(x);
    auto k = own(wickr_cipher_key_create(x->cipher, mkp(r.bytes(32))));
    View aad(some(r));
    auto p = own(E.wickr_crypto_engine_cipher_decrypt(x, r.chance(1, 2) ? (const wickr_buffer_t *)aad : NULL, k.get(), r.chance(1, 2)));
    auto l = own(wickr_ctx_decipher_local(W[0].ctx(), x));
    EXPECT(!l, "opened", "an arbitrary ciphertext was accepted as locally stored data");
    auto rm = own(wickr_ctx_decipher_remote(W[0].ctx(), x));
    auto es = own(wickr_key_exchange_set_create_from_cipher(&E, x, W[0].ctx()->packet_header_key));
    auto pl = own(wickr_payload_create_from_cipher(&E, x, W[0].ctx()->packet_header_key));
    EXPECT(!rm && !es && !pl, "opened", "an arbitrary ciphertext was accepted");
}
static void use_chain(Rng &r, wickr_identity_chain_t *c)
{
    auto k = own(wickr_identity_chain_copy(c));
    EXPECT(k && same(k.get(), c), "copy-differs", "copy of an accepted identity chain differs");
    bool ok = wickr_identity_chain_validate(c, &E);
    EXPECT(ok == ref_chain_ok(c), "wrong-verdict", "an accepted identity chain is reported %s", ok ? "valid" : "invalid");
    EXPECT(wickr_identity_chain_validate(k.get(), &E) == ok, "wrong-verdict", "the copy of a chain is judged differently");
    auto f = own(wickr_identity_get_fingerprint(c->root, E));
    auto b = own(wickr_identity_get_bilateral_fingerprint(c->root, W[0].dev.chain()->root, E));
    auto sp = own(wickr_identity_chain_serialize_private(c));
    View d(some(r));
    auto sg = own(wickr_identity_sign(c->node, &E, d));
    auto ni = own(wickr_node_identity_gen(&E, c->root, NULL));
    SER2(wickr_identity_chain_t, "identity chain", c, wickr_identity_chain_create_from_buffer(b, &E), wickr_identity_chain_serialize);
}
static void use_identity(Rng &r, wickr_identity_t *i)
{
    auto k = own(wickr_identity_copy(i));
    EXPECT(k && same(k.get(), i), "copy-differs", "copy of an accepted identity differs");
    auto f = own(wickr_identity_get_fingerprint(i, E));
    auto b = own(wickr_identity_get_bilateral_fingerprint(i, W[0].dev.chain()->root, E));
    View d(some(r));
    auto sg = own(wickr_identity_sign(i, &E, d));
    auto ni = own(wickr_node_identity_gen(&E, i, NULL));
    SER2(wickr_identity_t, "identity", i, wickr_identity_create_from_buffer(b, &E), wickr_identity_serialize);
}
static void use_eph(Rng &r, wickr_ephemeral_keypair_t *e)
{
    auto k = own(wickr_ephemeral_keypair_copy(e));
    EXPECT(k && same(k.get(), e), "copy-differs", "copy of an accepted ephemeral key differs");
    bool ok = wickr_ephemeral_keypair_verify_owner(e, &E, W[0].dev.chain()->node);
    EXPECT(ok == ref_eph_ok(e, W[0].dev.chain()->node), "wrong-verdict", "an accepted ephemeral key is reported %s", ok ? "owned" : "not owned");
    SER2(wickr_ephemeral_keypair_t, "ephemeral key", e, wickr_ephemeral_keypair_create_from_buffer(b, &E), wickr_ephemeral_keypair_serialize);
    wickr_ephemeral_keypair_make_public(e);
}
static void use_node(Rng &r, wickr_node_t *n)
{
    auto k = own(wickr_node_copy(n));
    EXPECT(k && same(k.get(), n), "copy-differs", "copy of an accepted device differs");
    bool ok = wickr_node_verify_signature_chain(n, &E);
    EXPECT(ok == ref_node_ok(k.get()), "wrong-verdict", "an accepted device is reported %s", ok ? "valid" : "invalid");
    if (r.chance(1, 3)) {
        auto arr = node_array({ wickr_node_copy(n), wickr_node_copy(W[1].node.get()) });
        Bytes tag{ 7 };
        auto pl = make_payload(Bytes{ 1, 2, 3 }, 1, 2, &tag, 1);
        auto enc = own(wickr_ctx_encode_packet(W[0].ctx(), pl.get(), arr.get()));
        EXPECT(!enc || ok, "sealed", "a message was sealed to an unverified device");
    }
    SER2(wickr_node_t, "device", n, wickr_node_create_from_buffer(b, &E), wickr_node_serialize);
    wickr_node_rotate_keypair(n, W[1].eph.get(), true);
}
static void use_cipher_key(Rng &r, const wickr_cipher_key_t *k)
{
    auto c = own(wickr_cipher_key_copy(k));
    EXPECT(c && same(c.get(), k), "copy-differs", "copy of an accepted cipher key differs");
    View d(some(r));
    auto x = own(E.wickr_crypto_engine_cipher_encrypt(d, NULL, k, NULL));
    if (x) { auto p = own(E.wickr_crypto_engine_cipher_decrypt(x.get(), NULL, k, false)); EXPECT(p && same(p.get(), d), "unusable", "an accepted cipher key encrypts what it can not decrypt"); }
    SER2(wickr_cipher_key_t, "cipher key", k, wickr_cipher_key_from_buffer(b), wickr_cipher_key_serialize);
}
static void use_storage(Rng &r, const wickr_storage_keys_t *k)
{
    auto c = own(wickr_storage_keys_copy(k));
    EXPECT(c && same(c.get(), k), "copy-differs", "copy of accepted storage keys differs");
    use_cipher_key(r, k->local);
    SER2(wickr_storage_keys_t, "storage keys", k, wickr_storage_keys_create_from_buffer(b), wickr_storage_keys_serialize);
}
static void use_root_keys(Rng &r, wickr_root_keys_t *k)
{
    auto c = own(wickr_root_keys_copy(k));
    EXPECT(c && same(c.get(), k), "copy-differs", "copy of accepted account keys differs");
    auto s = own(wickr_root_keys_localize(k, &E, W[0].ctx()->dev_info));
    auto id = mk(some(r));
    auto g = own(wickr_ctx_gen_with_root_keys(E, W[0].ctx()->dev_info, k, id.get()));
    if (g) { auto rec = own(wickr_ctx_gen_result_make_recovery(g.get())); }
    auto ex = own(wickr_root_keys_export(k, &E, W[0].ctx()->storage_keys->local));
    SER2(wickr_root_keys_t, "account keys", k, wickr_root_keys_create_from_buffer(&E, b), wickr_root_keys_serialize);
}
static void use_stream_key(Rng &r, wickr_stream_key_t *k)
{
    auto c = own(wickr_stream_key_copy(k));
    EXPECT(c && same(c.get(), k), "copy-differs", "copy of an accepted stream key differs");
    SER2(wickr_stream_key_t, "stream key", k, wickr_stream_key_create_from_buffer(b), wickr_stream_key_serialize);
    wickr_stream_key_t *a = wickr_stream_key_copy(k), *b = wickr_stream_key_copy(k);
    auto e = own(wickr_stream_ctx_create(E, a, STREAM_DIRECTION_ENCODE));
    if (!e) wickr_stream_key_destroy(&a);
    auto d = own(wickr_stream_ctx_create(E, b, STREAM_DIRECTION_DECODE));
    if (!d) wickr_stream_key_destroy(&b);
    if (!e || !d) return;
    for (int i = 1; i <= 3; i++) {
        View p(some(r));
        auto x = own(wickr_stream_ctx_encode(e.get(), p, NULL, i));
        if (!x) continue;
        auto y = own(wickr_stream_ctx_decode(d.get(), x.get(), NULL, i));
        EXPECT(y && same(y.get(), p), "unusable", "an accepted stream key encodes what it can not decode");
    }
}
static void use_payload(Rng &r, const wickr_payload_t *p)
{
    auto c = own(wickr_payload_copy(p));
    EXPECT(c && same(c.get(), p), "copy-differs", "copy of an accepted payload differs");
    auto x = own(wickr_payload_encrypt(p, &E, W[0].ctx()->storage_keys->local));
    SER2(wickr_payload_t, "payload", p, wickr_payload_create_from_buffer(b), wickr_payload_serialize);
}
static void use_exchanges(Rng &r, const wickr_key_exchange_set_t *s)
{
    auto c = own(wickr_key_exchange_set_copy(s));
    EXPECT(c && same(c.get(), s), "copy-differs", "copy of an accepted set of exchanges differs");
    auto f = own(wickr_key_exchange_set_find(s, W[1].dev.chain()->node->identifier));
    if (f) {
        auto node = own(wickr_node_copy(W[1].node.get()));
        for (int ver = 2; ver <= 4; ver++) {
            auto n2 = own(wickr_node_create(wickr_buffer_copy(node->dev_id), wickr_identity_chain_copy(node->id_chain), wickr_ephemeral_keypair_copy(W[1].eph.get())));
            auto k = own(wickr_key_exchange_derive_packet_key(&E, W[0].pub.get(), n2.get(), s->sender_pub, f.get(), NULL, (uint8_t)ver));
            auto d = own(wickr_key_exchange_derive_data(&E, W[0].pub.get(), n2.get(), s->sender_pub, f.get(), NULL, (uint8_t)ver));
        }
    }
    auto x = own(wickr_key_exchange_set_encrypt(s, &E, W[0].ctx()->packet_header_key));
    SER2(wickr_key_exchange_set_t, "set of exchanges", s, wickr_key_exchange_set_create_from_buffer(&E, b), wickr_key_exchange_set_serialize);
}
static void use_ctx(Rng &r, wickr_ctx_t *c)
{
    auto k = own(wickr_ctx_copy(c));
    EXPECT(k && same(k.get(), c), "copy-differs", "copy of an accepted context differs");
    View d(some(r));
    auto l = own(wickr_ctx_cipher_local(c, d));
    if (l) { auto p = own(wickr_ctx_decipher_local(c, l.get())); EXPECT(!p || same(p.get(), d), "unusable", "an accepted context reads back different local data"); }
    auto rm = own(wickr_ctx_cipher_remote(c, d));
    auto e = own(wickr_ctx_ephemeral_keypair_gen(c, 7));
    Bytes tag{ 7 };
    auto pl = make_payload(Bytes{ 1, 2, 3 }, 1, 2, &tag, 1);
    auto arr = node_array({ wickr_node_copy(W[1].node.get()) });
    auto enc = own(wickr_ctx_encode_packet(c, pl.get(), arr.get()));
    View pass(some(r));
    auto ex = own(wickr_ctx_export(c, pass));
    auto s = own(wickr_ctx_serialize(c));
    if (s) {
        wickr_dev_info_t *di = wickr_dev_info_copy(c->dev_info);
        auto c2 = own(wickr_ctx_create_from_buffer(E, di, s.get()));
        EXPECT(c2, "reserialized-refused", "an accepted context is refused after serializing it again");
        auto s2 = own(wickr_ctx_serialize(c2.get()));
        EXPECT(same(s.get(), s2.get()), "reserialized-differs", "an accepted context serialized twice differs");
        if (!c2) wickr_dev_info_destroy(&di);
    }
}
// ------------------------------------------------------------------ messages
static bool run_message(Rng &r, const Bytes &wire)
{
    View w(wire);
    Actor &me = W[1];
    bool acc = false;
    { auto p = own(wickr_packet_create_from_buffer(w));
      if (p) {
          acc = true;
          auto c = own(wickr_packet_copy(p.get()));
          EXPECT(c && same(c.get(), p.get()), "copy-differs", "copy of an accepted packet differs");
          SER2(wickr_packet_t, "packet", p.get(), wickr_packet_create_from_buffer(b), wickr_packet_serialize);
      } }
    auto see = [&](H<wickr_ctx_packet_t> cp, bool decode) {
        if (!cp) return;
        if (!cp->parse_result) { viol("no-result", "a packet was accepted without a parse result"); return; }
        auto c = own(wickr_parse_result_copy(cp->parse_result));
        if (!decode) return;
        auto d = own(wickr_ctx_decode_packet(me.ctx(), cp.get(), me.eph->ec_key));
        if (d && d->err == E_SUCCESS) {
            EXPECT(cp->parse_result->err == E_SUCCESS && cp->parse_result->signature_status == PACKET_SIGNATURE_VALID, "decoded-unverified", "a packet that did not verify was decoded");
            EXPECT(d->decrypted_payload && d->payload_key, "partial", "a decoded packet lacks its payload or key");
            auto dc = own(wickr_decode_result_copy(d.get()));
            use_payload(r, d->decrypted_payload);
            ev("decoded");
        }
    };
    see(own(wickr_ctx_parse_packet(me.ctx(), w, W[0].pub.get())), true);
    see(own(wickr_ctx_parse_packet(W[2].ctx(), w, W[0].pub.get())), true);
    see(own(wickr_ctx_parse_packet_no_decode(me.ctx(), w, W[0].pub.get())), false);
    see(own(wickr_ctx_stateless_parse_packet(&E, me.dev.chain()->node->identifier, w, W[0].pub.get())), true);
    return acc;
}
static ref::Recip r1() { return recip(W[1]); }
static Bytes wrap_content(Rng &r, const Bytes &c) { return ref::sign_frame((int)r.range(2, 4), c, B(W[0].dev.chain()->node->sig_key->pri_data)); }
static Bytes hdr_key() { return ref::header_key(W[0].dev.root_id, W[0].dev.node_id); }
static Bytes root_pub0() { return B(W[0].dev.chain()->root->sig_key->pub_data); }
static Bytes mk_header(Rng &r, const ref::Key &ex, int ver, const Bytes &wrapped)
{
    std::vector<std::tuple<Bytes, uint64_t, Bytes>> l;
    auto rc = r1();
    l.emplace_back(rc.node_id, rc.kid, ref::seal_exchange(r, ver, ex, root_pub0(), rc, wrapped));
    auto rc2 = recip(W[2]);
    l.emplace_back(rc2.node_id, rc2.kid, ref::seal_exchange(r, ver, ex, root_pub0(), rc2, wrapped));
    return ref::enc_header(ex.pub, l);
}
static Bytes wrap_header(Rng &r, const Bytes &h) { return wrap_content(r, ref::enc_packet(ref::gcm_box(hdr_key(), r.bytes(12), h), ref::gcm_box(Bytes(32, 9), r.bytes(12), Bytes{ 1, 2, 3 }))); }
static Bytes wrap_exchange(Rng &r, const Bytes &data)
{
    int ver = (int)r.range(2, 4);
    Bytes h = mk_header(r, ref::ec_gen(r), ver, data);
    Bytes key = data.size() == 33 ? sub(data, 1) : Bytes(32, 9);
    return ref::sign_frame(ver, ref::enc_packet(ref::gcm_box(hdr_key(), r.bytes(12), h), ref::gcm_box(key, r.bytes(12), ref::enc_payload(PayloadSpec{ { 1 }, 1, 1, true, { 2 }, 3 }))), B(W[0].dev.chain()->node->sig_key->pri_data));
}
static Bytes wrap_payload(Rng &r, const Bytes &pl)
{
    int ver = (int)r.range(2, 4);
    Bytes k = r.bytes(32);
    Bytes h = mk_header(r, ref::ec_gen(r), ver, ref::wire_key(k));
    return ref::sign_frame(ver, ref::enc_packet(ref::gcm_box(hdr_key(), r.bytes(12), h), ref::gcm_box(k, r.bytes(12), pl)), B(W[0].dev.chain()->node->sig_key->pri_data));
}
static Bytes pass_b() { return Bytes{ 'p', 'w' }; }
static Bytes wrap_kdf(Rng &r, const Bytes &inner)
{
    View i(inner), p(pass_b());
    if (inner.empty()) return Bytes();
    auto x = own(wickr_crypto_engine_kdf_cipher(&E, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, i, p));
    return B(x);
}
static Bytes wrap_recovery(Rng &r, const Bytes &inner) { return ref::gcm_box(B(W[0].dev.gen->recovery_key->key_data), r.bytes(12), inner); }

struct Target {
    const char *name;
    bool proto;
    std::function<void(Rng &, std::vector<Bytes> &)> seeds;
    std::function<Bytes(Rng &, const Bytes &)> wrap;
    std::function<bool(Rng &, const Bytes &)> run;
    bool refuses = false;             // even the seeds belong to another session
};
static std::vector<Target> T;
static Bytes SB(wickr_buffer_t *b) { auto o = own(b); return B(o); }

static void text_checks(Rng &r, const wickr_buffer_t *in)
{
    auto a = own(getDataFromBase64(in)), b = own(getDataFromHexString(in)), c = own(base32_decode(in));
    auto ea = own(getBase64FromData(in)), eb = own(getHexStringFromData(in)), ec = own(base32_encode(in));
    if (ea) { auto d = own(getDataFromBase64(ea.get())); }
    (void)r;
}
static void build_targets()
{
    T.push_back({ "packet", false, [](Rng &r, std::vector<Bytes> &s) {
        for (int ver = 2; ver <= 4; ver++) s.push_back(ref::seal(r, ver, W[0].dev.root_id, root_pub0(), W[0].dev.node_id, B(W[0].dev.chain()->node->sig_key->pri_data), { r1() }, gen_payload(r, 60)).packet);
    }, nullptr, run_message });
    T.push_back({ "signed packet content", true, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::enc_packet(ref::gcm_box(hdr_key(), r.bytes(12), mk_header(r, ref::ec_gen(r), 4, ref::wire_key(r.bytes(32)))), ref::gcm_box(r.bytes(32), r.bytes(12), Bytes{ 1 }))); }, wrap_content, run_message });
    T.push_back({ "packet header", true, [](Rng &r, std::vector<Bytes> &s) { for (int ver = 2; ver <= 4; ver++) s.push_back(mk_header(r, ref::ec_gen(r), ver, ref::wire_key(r.bytes(32)))); }, wrap_header, run_message });
    T.push_back({ "wrapped packet key", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::wire_key(r.bytes(32))); Bytes x = r.bytes(32); x.insert(x.begin(), 1); s.push_back(x); s.push_back(r.bytes(1)); }, wrap_exchange, run_message });
    T.push_back({ "packet payload", true, [](Rng &r, std::vector<Bytes> &s) { for (int i = 0; i < 3; i++) s.push_back(ref::enc_payload(gen_payload(r, 60))); }, wrap_payload, run_message });
    T.push_back({ "public key", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::ec_gen(r).pub); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(E.wickr_crypto_engine_ec_key_import(w, false)); if (k) use_key(r, k.get()); return !!k; } });
    T.push_back({ "private key", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::ec_gen(r).der); s.push_back(B(W[0].eph->ec_key->pri_data)); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(E.wickr_crypto_engine_ec_key_import(w, true)); if (k) use_key(r, k.get()); return !!k; } });
    T.push_back({ "signature", false, [](Rng &r, std::vector<Bytes> &s) { auto k = ref::ec_gen(r); for (int i = 0; i < 3; i++) s.push_back(ref::sig_block(ref::ecdsa_sign(k.der, r.bytes(9)), r.pick({ DIGEST_ID_SHA256, DIGEST_ID_SHA384, DIGEST_ID_SHA512 }))); }, nullptr,
        [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_ecdsa_result_create_from_buffer(w)); if (k) { use_sig(r, k.get()); SER2(wickr_ecdsa_result_t, "signature", k.get(), wickr_ecdsa_result_create_from_buffer(b), wickr_ecdsa_result_serialize); } return !!k; } });
    T.push_back({ "raw signature", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(r.bytes(132)); Bytes z = r.bytes(132); z[0] = z[66] = 0; s.push_back(z); }, nullptr,
        [](Rng &r, const Bytes &b) { View w(b); auto k = own(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, w)); if (k) { use_sig(r, k.get()); auto s = own(wickr_ecdsa_result_serialize(k.get())); } return !!k; } });
    T.push_back({ "ciphertext", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(r.range(1, 40)))); s.push_back(ref::cipher_result(1, r.bytes(16), Bytes(), r.bytes(20))); }, nullptr,
        [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_cipher_result_from_buffer(w)); if (k) { use_cipher_result(r, k.get()); SER2(wickr_cipher_result_t, "ciphertext", k.get(), wickr_cipher_result_from_buffer(b), wickr_cipher_result_serialize); } return !!k; } });
    T.push_back({ "cipher key", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(ref::wire_key(r.bytes(32))); Bytes x = r.bytes(32); x.insert(x.begin(), 1); s.push_back(x); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_cipher_key_from_buffer(w)); if (k) use_cipher_key(r, k.get()); return !!k; } });
    T.push_back({ "identity", true, [](Rng &r, std::vector<Bytes> &s) { auto c = ref::gen_chain(r, r.range(1, 60)); s.push_back(ref::enc_identity(c.root)); s.push_back(ref::enc_identity(c.node)); s.push_back(ref::enc_identity(c.node, true)); s.push_back(ref::enc_identity(c.root, true)); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_identity_create_from_buffer(w, &E)); if (k) use_identity(r, k.get()); return !!k; } });
    T.push_back({ "identity chain", true, [](Rng &r, std::vector<Bytes> &s) { auto c = ref::gen_chain(r); s.push_back(ref::enc_chain(c)); s.push_back(ref::enc_chain(c, true)); s.push_back(chain_bytes(W[0].dev.chain())); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_identity_chain_create_from_buffer(w, &E)); if (k) use_chain(r, k.get()); return !!k; } });
    T.push_back({ "device", true, [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_node_serialize(W[1].node.get()))); auto c = ref::gen_chain(r); auto e = ref::ec_gen(r); s.push_back(ref::enc_node(r.bytes(32), c, gen_u64(r), e.pub, ref::ecdsa_sign(c.node.key.der, e.pub))); s.push_back(ref::enc_node(r.bytes(32), c, 4, e.pub, Bytes())); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_node_create_from_buffer(w, &E)); if (k) use_node(r, k.get()); return !!k; } });
    T.push_back({ "ephemeral key", true, [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_ephemeral_keypair_serialize(W[0].eph.get()))); ref::PW w; w.u(1, gen_u64(r)).s(2, ref::ec_gen(r).pub); s.push_back(w.b); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_ephemeral_keypair_create_from_buffer(w, &E)); if (k) use_eph(r, k.get()); return !!k; } });
    T.push_back({ "set of exchanges", true, [](Rng &r, std::vector<Bytes> &s) { s.push_back(mk_header(r, ref::ec_gen(r), 4, ref::wire_key(r.bytes(32)))); s.push_back(ref::enc_header(ref::ec_gen(r).pub, {})); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_key_exchange_set_create_from_buffer(&E, w)); if (k) use_exchanges(r, k.get()); return !!k; } });
    T.push_back({ "encrypted set of exchanges", true, [](Rng &r, std::vector<Bytes> &s) { s.push_back(mk_header(r, ref::ec_gen(r), 4, ref::wire_key(r.bytes(32)))); }, [](Rng &r, const Bytes &b) { return ref::gcm_box(hdr_key(), r.bytes(12), b); }, [](Rng &r, const Bytes &b) { View w(b); auto x = own(wickr_cipher_result_from_buffer(w)); if (!x) return false; auto k = own(wickr_key_exchange_set_create_from_cipher(&E, x.get(), W[0].ctx()->packet_header_key)); if (k) use_exchanges(r, k.get()); return !!k; } });
    T.push_back({ "payload", true, [](Rng &r, std::vector<Bytes> &s) { for (int i = 0; i < 3; i++) s.push_back(ref::enc_payload(gen_payload(r, 60))); }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_payload_create_from_buffer(w)); if (k) use_payload(r, k.get()); return !!k; } });
    T.push_back({ "encrypted payload", true, [](Rng &r, std::vector<Bytes> &s) { for (int i = 0; i < 3; i++) s.push_back(ref::enc_payload(gen_payload(r, 60))); }, [](Rng &r, const Bytes &b) { return ref::gcm_box(hdr_key(), r.bytes(12), b); }, [](Rng &r, const Bytes &b) { View w(b); auto x = own(wickr_cipher_result_from_buffer(w)); if (!x) return false; auto k = own(wickr_payload_create_from_cipher(&E, x.get(), W[0].ctx()->packet_header_key)); if (k) use_payload(r, k.get()); return !!k; } });
    auto ctx_seeds = [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_ctx_serialize(W[0].ctx()))); s.push_back(SB(wickr_ctx_serialize(W[1].ctx()))); };
    T.push_back({ "context", true, ctx_seeds, nullptr, [](Rng &r, const Bytes &b) { View w(b); wickr_dev_info_t *di = wickr_dev_info_copy(W[2].ctx()->dev_info); auto c = own(wickr_ctx_create_from_buffer(E, di, w)); if (!c) wickr_dev_info_destroy(&di); else use_ctx(r, c.get()); return !!c; } });
    T.push_back({ "exported context", true, ctx_seeds, wrap_kdf, [](Rng &r, const Bytes &b) { View w(b), p(pass_b()); wickr_dev_info_t *di = wickr_dev_info_copy(W[2].ctx()->dev_info); auto c = own(wickr_ctx_import(E, di, w, p)); if (!c) wickr_dev_info_destroy(&di); else use_ctx(r, c.get()); return !!c; } });
    auto st_seeds = [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_storage_keys_serialize(W[0].ctx()->storage_keys))); };
    T.push_back({ "storage keys", true, st_seeds, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_storage_keys_create_from_buffer(w)); if (k) use_storage(r, k.get()); return !!k; } });
    T.push_back({ "exported storage keys", true, st_seeds, wrap_kdf, [](Rng &r, const Bytes &b) { View w(b), p(pass_b()); auto k = own(wickr_ctx_import_storage_keys(E, w, p)); if (k) use_storage(r, k.get()); return !!k; } });
    T.push_back({ "exported recovery key", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_cipher_key_serialize(W[0].dev.gen->recovery_key))); }, wrap_kdf, [](Rng &r, const Bytes &b) {
        View w(b), p(pass_b());
        auto k = own(wickr_ctx_gen_import_recovery_key_passphrase(E, w, p));
        if (k) use_cipher_key(r, k.get());
        auto rec = own(wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get()));
        auto id = mk(W[0].dev.root_id);
        auto g = own(wickr_ctx_gen_with_passphrase(E, W[0].ctx()->dev_info, &w, &p, rec.get(), id.get()));
        return !!k; } });
    auto rk_seeds = [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_root_keys_serialize(W[0].dev.gen->root_keys))); };
    T.push_back({ "account keys", true, rk_seeds, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_root_keys_create_from_buffer(&E, w)); if (k) use_root_keys(r, k.get()); return !!k; } });
    auto rec_run = [](Rng &r, const Bytes &b) {
        View w(b);
        auto k = own(wickr_ctx_gen_import_recovery(E, w, W[0].dev.gen->recovery_key));
        if (k) use_root_keys(r, k.get());
        auto id = mk(W[0].dev.root_id);
        if (k) { auto g = own(wickr_ctx_gen_with_recovery(E, W[0].ctx()->dev_info, &w, W[0].dev.gen->recovery_key, id.get())); if (g) ev("recovered"); }
        else { auto g = own(wickr_ctx_gen_with_recovery(E, W[0].ctx()->dev_info, &w, W[0].dev.gen->recovery_key, id.get())); EXPECT(!g, "inconsistent", "a device was made from refused recovery data"); }
        return !!k; };
    T.push_back({ "recovery data", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(SB(wickr_ctx_gen_result_make_recovery(W[0].dev.gen.get()))); }, nullptr, rec_run });
    T.push_back({ "encrypted account keys", true, rk_seeds, wrap_recovery, rec_run });
    T.push_back({ "stream key", true, [](Rng &r, std::vector<Bytes> &s) { for (int i = 0; i < 2; i++) { ref::PW w; w.s(1, ref::wire_key(r.bytes(32))).s(2, r.bytes(64)).u(3, r.pick<uint64_t>({ 1, 2, 512, 32768 })); if (i) w.s(4, r.bytes(9)); s.push_back(w.b); } }, nullptr, [](Rng &r, const Bytes &b) { View w(b); auto k = own(wickr_stream_key_create_from_buffer(w)); if (k) use_stream_key(r, k.get()); return !!k; } });
    T.push_back({ "transport packet", false, [](Rng &r, std::vector<Bytes> &s) {
        auto c = ref::gen_chain(r);
        ref::Peer p;
        p.me = c;
        s.push_back(p.start(r, true));
        Bytes m = ref::data_meta(gen_u64(r));
        s.push_back(cat({ m, ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(20), m) }));
        s.push_back(cat({ ref::hs_meta(0), r.bytes(30) }));
    }, nullptr, [](Rng &r, const Bytes &b) {
        View w(b);
        auto k = own(wickr_transport_packet_create_from_buffer(w));
        if (!k) return false;
        auto c = own(wickr_transport_packet_copy(k.get()));
        auto s = own(wickr_transport_packet_serialize(k.get())), s2 = own(wickr_transport_packet_serialize(c.get()));
        EXPECT(same(s.get(), s2.get()), "copy-differs", "copy of an accepted transport packet differs");
        if (s) EXPECT(eq(s.get(), b), "reserialized-differs", "an accepted transport packet serializes to other bytes than it was parsed from");
        bool ok = wickr_transport_packet_verify(k.get(), &E, W[0].pub.get());
        EXPECT(!ok, "verified", "an arbitrary transport packet verifies");
        return true; } });
    // what an authenticated peer may put into the handshake
    auto hs_seeds = [](Rng &r, std::vector<Bytes> &s) {
        for (int need = 0; need < 2; need++) {
            ref::Peer p;
            p.me = PEER;
            Bytes x = p.start(r, need);
            s.push_back(sub(x, 10, x.size() - 153));
        }
    };
    auto hs_ep = [](Rng &r, bool pin) {
        auto pc = lib_chain(PEER, E, false);
        auto x = make_ep("x", E, W[0].ctx()->id_chain, pin ? pc.get() : nullptr, (uint32_t)r.pick({ 1, 2, 512 }));
        return x;
    };
    auto hs_after = [](Rng &r, Endpoint &x, bool acc) {
        EXPECT(x.rx.empty(), "delivered", "application data out of a handshake packet");
        if (acc) { x.send(some(r)); EXPECT(x.status() == TRANSPORT_STATUS_ACTIVE, "unusable", "a transport can not send right after becoming active (error %d)", x.error()); x.feed(tame(some(r))); }
        else if (r.chance(1, 4)) x.decide(true);
    };
    T.push_back({ "handshake seed", true, hs_seeds, nullptr, [=](Rng &r, const Bytes &b) {
        auto x = hs_ep(r, r.chance(1, 2));
        x->feed(ref::sign_transport(cat({ ref::hs_meta(), b }), PEER.node.key.der));
        bool acc = x->status() == TRANSPORT_STATUS_ACTIVE;
        hs_after(r, *x, acc);
        return acc; } });
    T.push_back({ "handshake answer", true, [=](Rng &r, std::vector<Bytes> &s) {
        for (int pin = 0; pin < 2; pin++) {
            auto x = hs_ep(r, pin);
            x->start();
            ref::Peer p;
            p.me = PEER;
            Bytes a;
            if (x->has_tx() && p.respond(r, x->take(), 5, a)) s.push_back(sub(a, 10, a.size() - 153));
        }
    }, nullptr, [=](Rng &r, const Bytes &b) {     // its secret part belongs to another session
        auto x = hs_ep(r, r.chance(1, 2));
        x->start();
        x->feed(ref::sign_transport(cat({ ref::hs_meta(), b }), PEER.node.key.der));
        EXPECT(x->status() == TRANSPORT_STATUS_ERROR, "accepted", "an answer to another seed was accepted");
        hs_after(r, *x, false);
        return false; }, true });
    T.push_back({ "handshake secret", true, [](Rng &r, std::vector<Bytes> &s) {
        for (int i = 0; i < 2; i++) { ref::PW rk, rd; rk.s(1, r.bytes(32)).u(2, CIPHER_AES256_GCM.cipher_id).u(3, i ? 512 : 1).u(4, i ? 1 : 7); rd.s(1, rk.b); s.push_back(rd.b); }
        s.push_back(Bytes{ 0x78, 0 });           // no key at all, but something else
    }, nullptr, [=](Rng &r, const Bytes &b) {
        bool pin = r.chance(1, 2);
        auto x = hs_ep(r, pin);
        x->start();
        REQUIRE(x->has_tx(), "baseline", "no seed");
        Bytes seed = x->take(), sb, ep, sh;
        ref::PR h(sub(seed, 10, seed.size() - 153));
        h.bytes(2, sb);
        ref::PR q(sb);
        q.bytes(3, ep);
        ref::Key eph = ref::ec_gen(r);
        ref::ecdh(eph.der, ep, sh);
        Bytes k = ref::hkdf(512, sh, Bytes(), ref::Peer::info(chain_bytes(W[0].ctx()->id_chain), ref::enc_chain(PEER), ep, eph.pub), 32);
        ref::PW rs, hh;
        rs.s(2, eph.pub).s(3, ref::gcm_box(k, r.bytes(12), b));
        if (!pin) rs.s(4, ref::enc_chain(PEER));
        hh.s(3, rs.b);
        x->feed(ref::sign_transport(cat({ ref::hs_meta(), hh.b }), PEER.node.key.der));
        bool acc = x->status() == TRANSPORT_STATUS_ACTIVE;
        hs_after(r, *x, acc);
        return acc; } });
    T.push_back({ "key derivation settings", false, [](Rng &r, std::vector<Bytes> &s) { for (int id = 1; id <= 4; id++) s.push_back(cat({ Bytes{ (uint8_t)id }, r.bytes(16) })); s.push_back(cat({ Bytes{ 5 }, B(std::string("$2a$15$abcdefghijklmnopqrstuu")) })); s.push_back(cat({ Bytes{ 6 }, r.bytes(32) })); }, nullptr, [](Rng &r, const Bytes &b) {
        View w(b);
        wickr_kdf_meta_size_with_buffer(w);
        auto k = own(wickr_kdf_meta_create_with_buffer(w));
        if (!k) return false;
        auto c = own(wickr_kdf_meta_copy(k.get()));
        EXPECT(c && same(c.get(), k.get()), "copy-differs", "copy of accepted key derivation settings differs");
        View p(some(r));
        auto x = own(wickr_perform_kdf_meta(k.get(), p));
        SER2(wickr_kdf_meta_t, "key derivation settings", k.get(), wickr_kdf_meta_create_with_buffer(b), wickr_kdf_meta_serialize);
        return true; } });
    T.push_back({ "passphrase export", false, [](Rng &r, std::vector<Bytes> &s) { s.push_back(wrap_kdf(r, r.bytes(20))); for (int id = 1; id <= 8; id++) { Bytes x = s[0]; x[0] = (uint8_t)id; s.push_back(x); } }, nullptr, [](Rng &r, const Bytes &b) { View w(b), p(pass_b()); auto k = own(wickr_crypto_engine_kdf_decipher(&E, w, p)); return !!k; } });
    T.push_back({ "text", false, [](Rng &r, std::vector<Bytes> &s) { Bytes x = r.bytes(r.range(1, 20)); View w(x); s.push_back(SB(getBase64FromData(w))); s.push_back(SB(getHexStringFromData(w))); s.push_back(SB(base32_encode(w))); s.push_back(r.bytes(9)); }, nullptr, [](Rng &r, const Bytes &b) {
        // the decoders document that they take NUL-terminated text
        Bytes z = b;
        z.push_back(0);
        View w(z);
        if (r.chance(1, 2) && w.b.length > 1) w.b.length--;
        text_checks(r, w);
        View x(b);
        auto c = own(base32_decode(x)), d = own(base32_encode(x));
        return true; } });
}
void prop_init()
{
    E = plain_engine();
    Rng r(g_seed * 229 + 14);
    W.build(r, 3, E);
    PEER = ref::gen_chain(r);
    build_targets();
    size_t n = 0;
    for (auto &x : g_ctr) n += x.second - x.first;
    g_seen.assign(n, 0);
    if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
void prop_fini() { ev("edges_in_library", g_seen.size()); }

static double cpu() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    Target &t = T[k % T.size()];
    std::fill(g_seen.begin(), g_seen.end(), 0);
    std::vector<Bytes> corpus;
    t.seeds(r, corpus);
    size_t nseeds = corpus.size();
    auto run = [&](const Bytes &in) {
        Bytes wire = t.wrap ? t.wrap(r, in) : in;
        cov_clear();
        double c0 = cpu();
        t_live = t_peak = 0;
        t_armed = true;
        bool acc;
        try { acc = t.run(r, wire); } catch (...) { t_armed = false; throw; }
        t_armed = false;
        double used = cpu() - c0;
        EXPECT(used < 10, "slow", "%s: %zu bytes took %.1f s", t.name, wire.size(), used);
        EXPECT(t_peak < (4 << 20) + 400 * (int64_t)wire.size(), "memory", "%s: %zu bytes made the library hold %lld bytes", t.name, wire.size(), (long long)t_peak);
        ev(acc ? "accepted" : "refused");
        return acc;
    };
    for (size_t i = 0; i < nseeds; i++) {
        bool acc = run(corpus[i]);
        if (i == 0 && !t.wrap && !t.refuses && strcmp(t.name, "passphrase export")) EXPECT(acc, "valid-refused", "%s: a valid encoding is refused", t.name);
        cov_new();
    }
    run(Bytes());
    int n = g_thorough ? 3000 : 260;
    for (int i = 0; i < n; i++) {
        Bytes in = corpus[r.chance(1, 3) ? r.below(nseeds) : r.below(corpus.size())];
        int m = (int)r.range(1, 3);
        for (int j = 0; j < m; j++) {
            if (r.chance(1, 12)) {                // splice
                const Bytes &o = corpus[r.below(corpus.size())];
                Bytes x = sub(in, 0, r.below(in.size() + 1)), y = sub(o, r.below(o.size() + 1));
                x.insert(x.end(), y.begin(), y.end());
                in = x;
            } else in = t.proto ? pm(r, in) : mutate(r, in);
        }
        if (in.size() > 20000) in.resize(20000);
        run(in);
        ev("inputs");
        if (cov_new()) { corpus.push_back(in); ev("new_coverage"); }
    }
    if (leak_check()) viol("leak", fmt("%s: memory was left behind", t.name));
    if (r.chance(1, 20)) sample(fmt("%s: %d hostile inputs, %zu reached new code", t.name, n, corpus.size() - nseeds));
}
} // namespace v
