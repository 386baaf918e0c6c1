// C15: every serializable object survives serialization unchanged. For each type a random description (Spec) is turned both
// into a library object and, by an independent codec, into the documented bytes; the library must produce those bytes, read
// them back as an equal object, and give the same bytes again. Encodings of descriptions that differ must differ.
#include "../scen.hpp"

namespace v {
const char *PROP_ID = "C15";
static wickr_crypto_engine_t E;

struct Spec { std::vector<Bytes> b; std::vector<uint64_t> n; };
static std::string dump(const Spec &s)
{
    std::string o;
    for (auto &x : s.b) o += fmt("b%zu:", x.size()) + std::string(x.begin(), x.end());
    for (auto x : s.n) o += fmt("n%" PRIu64, x);
    return o;
}

// ------------------------------------------------------------------ shared parts
static std::vector<ref::Key> g_keys;
static const ref::Key &key(uint64_t i) { return g_keys[i % g_keys.size()]; }
static H<wickr_ec_key_t> lib_pub(uint64_t i) { View w(key(i).pub); auto k = own(E.wickr_crypto_engine_ec_key_import(w, false)); REQUIRE(k, "ec-key", "a valid public key could not be imported"); return k; }
static H<wickr_ec_key_t> lib_priv(uint64_t i) { View w(key(i).der); auto k = own(E.wickr_crypto_engine_ec_key_import(w, true)); REQUIRE(k, "ec-key", "a valid private key could not be imported"); return k; }
static const wickr_digest_t DG[3] = { DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 };
static H<wickr_ecdsa_result_t> lib_sig(const Bytes &der, uint64_t dg) { auto s = own(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DG[dg % 3], mkp(der))); REQUIRE(s, "make", "making a signature failed"); return s; }
static Bytes ref_sig(const Bytes &der, uint64_t dg) { return ref::sig_block(der, DG[dg % 3].digest_id); }
static Bytes gen_sig(Rng &r) { Bytes b = r.chance(1, 8) ? Bytes(r.range(1, 141), (uint8_t)r.below(2)) : r.bytes(r.chance(1, 2) ? r.range(134, 141) : r.range(1, 141)); return b; }
static Bytes gen_id(Rng &r) { return r.chance(1, 2) ? r.bytes(32) : gen_bytes(r, 127); }
static const wickr_cipher_t &CI(uint64_t i) { return i % 2 ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; }
static H<wickr_cipher_key_t> lib_ck(uint64_t c, const Bytes &k) { auto x = own(wickr_cipher_key_create(CI(c), mkp(k))); REQUIRE(x, "make", "making a cipher key failed"); return x; }
static Bytes ref_ck(uint64_t c, const Bytes &k) { return cat({ Bytes{ (uint8_t)CI(c).cipher_id }, k }); }
static H<wickr_cipher_result_t> lib_cr(uint64_t c, const Bytes &iv, const Bytes &tag, const Bytes &ct)
{
    auto x = own(wickr_cipher_result_create(CI(c), mkp(iv), mkp(ct), CI(c).is_authenticated ? mkp(tag) : NULL));
    REQUIRE(x, "make", "making a cipher result failed");
    return x;
}
static Bytes ref_cr(uint64_t c, const Bytes &iv, const Bytes &tag, const Bytes &ct) { return ref::cipher_result((uint8_t)CI(c).cipher_id, iv, CI(c).is_authenticated ? tag : Bytes(), ct); }

// identity: b[id, sig] n[type, key, digest]
static H<wickr_identity_t> lib_ident(const Bytes &id, const Bytes &sig, uint64_t type, uint64_t k, uint64_t dg, bool priv)
{
    auto kk = priv ? lib_priv(k) : lib_pub(k);
    H<wickr_ecdsa_result_t> s;
    if (type % 2) s = lib_sig(sig, dg);
    auto i = own(wickr_identity_create(type % 2 ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, mkp(id), kk.get(), s.get()));
    REQUIRE(i, "make", "making an identity failed");
    kk.release(); s.release();
    return i;
}
static Bytes ref_ident(const Bytes &id, const Bytes &sig, uint64_t type, uint64_t k, uint64_t dg, bool priv)
{
    ref::PW w;
    w.s(1, id).s(2, priv ? key(k).der : key(k).pub);
    if (type % 2) w.s(3, ref_sig(sig, dg));
    w.u(4, type % 2).u(5, priv);
    return w.b;
}
// chain: b[rid, nid, sig] n[rk, nk, dg]
static H<wickr_identity_chain_t> lib_chain_of(const Spec &s, size_t b0, size_t n0, bool priv)
{
    auto r = lib_ident(s.b[b0], Bytes(), 0, s.n[n0], 0, priv), n = lib_ident(s.b[b0 + 1], s.b[b0 + 2], 1, s.n[n0 + 1], s.n[n0 + 2], priv);
    auto c = own(wickr_identity_chain_create(r.get(), n.get()));
    REQUIRE(c, "make", "making an identity chain failed");
    r.release(); n.release();
    return c;
}
static Bytes ref_chain_of(const Spec &s, size_t b0, size_t n0, bool priv)
{
    ref::PW w;
    w.s(1, ref_ident(s.b[b0], Bytes(), 0, s.n[n0], 0, priv)).s(2, ref_ident(s.b[b0 + 1], s.b[b0 + 2], 1, s.n[n0 + 1], s.n[n0 + 2], priv));
    return w.b;
}
static H<wickr_ephemeral_keypair_t> lib_eph(uint64_t id, uint64_t k, bool has_sig, const Bytes &sig, uint64_t dg, bool priv)
{
    auto kk = priv ? lib_priv(k) : lib_pub(k);
    H<wickr_ecdsa_result_t> s;
    if (has_sig) s = lib_sig(sig, dg);
    auto e = own(wickr_ephemeral_keypair_create(id, kk.get(), s.get()));
    REQUIRE(e, "make", "making an ephemeral key pair failed");
    kk.release(); s.release();
    return e;
}
static Bytes ref_eph(uint64_t id, uint64_t k, bool has_sig, const Bytes &sig, uint64_t dg)
{
    ref::PW w;
    w.u(1, id).s(2, key(k).pub);
    if (has_sig) w.s(3, ref_sig(sig, dg));
    return w.b;
}

// ------------------------------------------------------------------ the types
struct Type {
    const char *name;
    std::function<Spec(Rng &)> gen;
    std::function<Bytes(const Spec &)> enc;                       // independent codec
    std::function<void(const Spec &, const Bytes &)> trip;        // library round trip against the documented bytes
    std::function<bool(const Spec &)> ok;                         // descriptions the type can hold
};
static std::vector<Type> T;

// serialize, compare, read, compare, serialize again
template <class P, class S, class D, class C> static void trip(const char *name, P &obj, S ser, D de, C same_f, const Bytes &want)
{
    auto s = own(ser(obj.get()));
    REQUIRE(s, fmt("%s:serialize", name), "%s: a valid object can not be serialized", name);
    REQUIRE(B(s) == want, fmt("%s:format", name), "%s: serialized form is not the documented one: got %s, documented %s", name, hex(B(s), 200).c_str(), hex(want, 200).c_str());
    View w(want);
    P o(de(w));
    REQUIRE(o, fmt("%s:read", name), "%s: its own serialized form can not be read (%zu bytes)", name, want.size());
    EXPECT(same_f(obj.get(), o.get()), fmt("%s:fields", name), "%s: the object read back differs in a field", name);
    EXPECT(B(w) == want, fmt("%s:input", name), "%s: reading changed the bytes", name);
    auto s2 = own(ser(o.get()));
    EXPECT(s2 && B(s2) == want, fmt("%s:stable", name), "%s: serializing the object read back gives other bytes", name);
    auto s3 = own(ser(obj.get()));
    EXPECT(s3 && B(s3) == want, fmt("%s:repeat", name), "%s: serializing twice gives different bytes", name);
    // the object read back does not depend on the bytes it came from
    {
        auto tmp = mk(want);
        P o2(de(tmp.get()));
        memset(tmp->bytes, 0xdb, tmp->length);
        tmp.reset();
        EXPECT(o2 && same_f(obj.get(), o2.get()), fmt("%s:aliases", name), "%s: the object read back depends on the buffer it was read from", name);
    }
    ev("round_trips");
}

template <class X> static bool pub_eq(const X *a, const X *b) { return same_pub(a, b); }
template <class X> static bool all_eq(const X *a, const X *b) { return same(a, b); }

static void add_types()
{
    T.push_back({ "cipher key", [](Rng &r) { return Spec{ { r.chance(1, 8) ? Bytes(32, 0) : r.bytes(32) }, { r.below(2) } }; },
        [](const Spec &s) { return ref_ck(s.n[0], s.b[0]); },
        [](const Spec &s, const Bytes &w) { auto o = lib_ck(s.n[0], s.b[0]); trip("cipher key", o, wickr_cipher_key_serialize, wickr_cipher_key_from_buffer, all_eq<wickr_cipher_key_t>, w); },
        [](const Spec &s) { return s.b[0].size() == 32 && s.n[0] < 2; } });
    T.push_back({ "cipher result", [](Rng &r) { uint64_t c = r.below(2); return Spec{ { r.bytes(CI(c).iv_len), CI(c).is_authenticated ? r.bytes(16) : Bytes(), gen_bytes(r, 40000) }, { c } }; },
        [](const Spec &s) { return ref_cr(s.n[0], s.b[0], s.b[1], s.b[2]); },
        [](const Spec &s, const Bytes &w) { auto o = lib_cr(s.n[0], s.b[0], s.b[1], s.b[2]); trip("cipher result", o, wickr_cipher_result_serialize, wickr_cipher_result_from_buffer, all_eq<wickr_cipher_result_t>, w); },
        [](const Spec &s) { return s.n[0] < 2 && s.b[0].size() == CI(s.n[0]).iv_len && s.b[1].size() == (s.n[0] ? 0 : 16) && !s.b[2].empty(); } });
    T.push_back({ "signature", [](Rng &r) { return Spec{ { gen_sig(r) }, { r.below(3) } }; },
        [](const Spec &s) { return ref_sig(s.b[0], s.n[0]); },
        [](const Spec &s, const Bytes &w) { auto o = lib_sig(s.b[0], s.n[0]); trip("signature", o, wickr_ecdsa_result_serialize, wickr_ecdsa_result_create_from_buffer, all_eq<wickr_ecdsa_result_t>, w); },
        [](const Spec &s) { return s.n[0] < 3 && s.b[0].size() >= 1 && s.b[0].size() <= 141; } });
    T.push_back({ "public key", [](Rng &r) { return Spec{ {}, { r.below(g_keys.size()) } }; },
        [](const Spec &s) { return key(s.n[0]).pub; },
        [](const Spec &s, const Bytes &w) { auto o = lib_pub(s.n[0]); trip("public key", o, [](const wickr_ec_key_t *k) { return wickr_buffer_copy(k->pub_data); }, [](const wickr_buffer_t *b) { return E.wickr_crypto_engine_ec_key_import(b, false); }, all_eq<wickr_ec_key_t>, w); },
        [](const Spec &s) { return s.n[0] < g_keys.size(); } });
    T.push_back({ "private key", [](Rng &r) { return Spec{ {}, { r.below(g_keys.size()) } }; },
        [](const Spec &s) { return key(s.n[0]).der; },
        [](const Spec &s, const Bytes &w) {
            auto o = lib_priv(s.n[0]);
            EXPECT(eq(o->pub_data, key(s.n[0]).pub), "private key:public-part", "an imported private key has another public part");
            trip("private key", o, [](const wickr_ec_key_t *k) { return wickr_buffer_copy(k->pri_data); }, [](const wickr_buffer_t *b) { return E.wickr_crypto_engine_ec_key_import(b, true); }, all_eq<wickr_ec_key_t>, w); },
        [](const Spec &s) { return s.n[0] < g_keys.size(); } });
    static const wickr_kdf_algo_t KA[] = { KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_BCRYPT_15 };   // settings of password-based functions are the ones that can be read back
    T.push_back({ "kdf settings", [](Rng &r) { uint64_t a = r.below(5); return Spec{ { r.bytes(KA[a].salt_size) }, { a } }; },
        [](const Spec &s) { return cat({ Bytes{ (uint8_t)KA[s.n[0]].kdf_id }, s.b[0] }); },
        [](const Spec &s, const Bytes &w) {
            auto o = own(wickr_kdf_meta_create(KA[s.n[0]], mkp(s.b[0]), NULL));
            REQUIRE(o, "make", "making key derivation settings failed");
            trip("kdf settings", o, wickr_kdf_meta_serialize, wickr_kdf_meta_create_with_buffer, all_eq<wickr_kdf_meta_t>, w);
            EXPECT(wickr_kdf_meta_size_with_buffer(mk(cat({ w, Bytes(40, 7) })).get()) == w.size(), "kdf settings:size", "the size of serialized settings is not found");
        },
        [](const Spec &s) { return s.n[0] < 5 && s.b[0].size() == KA[s.n[0]].salt_size; } });
    T.push_back({ "identity", [](Rng &r) { uint64_t t = r.below(2); return Spec{ { gen_id(r), t ? gen_sig(r) : Bytes() }, { t, r.below(g_keys.size()), t ? r.below(3) : 0 } }; },
        [](const Spec &s) { return ref_ident(s.b[0], s.b[1], s.n[0], s.n[1], s.n[2], false); },
        [](const Spec &s, const Bytes &w) {
            for (int priv = 0; priv < 2; priv++) {
                auto o = lib_ident(s.b[0], s.b[1], s.n[0], s.n[1], s.n[2], priv);
                trip("identity", o, wickr_identity_serialize, [](const wickr_buffer_t *b) { return wickr_identity_create_from_buffer(b, &E); }, pub_eq<wickr_identity_t>, w);
            }
        },
        [](const Spec &s) { return s.n[0] < 2 && s.n[1] < g_keys.size() && s.n[2] < 3 && s.b[0].size() >= 1 && s.b[0].size() <= 127 && (s.n[0] ? s.b[1].size() >= 1 && s.b[1].size() <= 141 : s.b[1].empty() && s.n[2] == 0); } });
    auto chain_ok = [](const Spec &s, size_t b0, size_t n0) { return s.n[n0] < g_keys.size() && s.n[n0 + 1] < g_keys.size() && s.n[n0 + 2] < 3 && s.b[b0].size() >= 1 && s.b[b0].size() <= 127 && s.b[b0 + 1].size() >= 1 && s.b[b0 + 1].size() <= 127 && s.b[b0 + 2].size() >= 1 && s.b[b0 + 2].size() <= 141; };
    T.push_back({ "identity chain", [](Rng &r) { return Spec{ { gen_id(r), gen_id(r), gen_sig(r) }, { r.below(g_keys.size()), r.below(g_keys.size()), r.below(3) } }; },
        [](const Spec &s) { return ref_chain_of(s, 0, 0, false); },
        [](const Spec &s, const Bytes &w) {
            for (int priv = 0; priv < 2; priv++) {
                auto o = lib_chain_of(s, 0, 0, priv);
                trip("identity chain", o, wickr_identity_chain_serialize, [](const wickr_buffer_t *b) { return wickr_identity_chain_create_from_buffer(b, &E); }, pub_eq<wickr_identity_chain_t>, w);
            }
            // the private form, as contexts carry it
            View pw(ref_chain_of(s, 0, 0, true));
            auto p = own(wickr_identity_chain_create_from_buffer(pw, &E)), q = lib_chain_of(s, 0, 0, true);
            EXPECT(p && same(p.get(), q.get()), "identity chain:private", "the private form of a chain is read back with other fields");
        },
        [=](const Spec &s) { return chain_ok(s, 0, 0); } });
    T.push_back({ "ephemeral key pair", [](Rng &r) { uint64_t h = r.chance(4, 5); return Spec{ { h ? gen_sig(r) : Bytes() }, { gen_u64(r), r.below(g_keys.size()), h, h ? r.below(3) : 0 } }; },
        [](const Spec &s) { return ref_eph(s.n[0], s.n[1], s.n[2], s.b[0], s.n[3]); },
        [](const Spec &s, const Bytes &w) {
            for (int priv = 0; priv < 2; priv++) {
                auto o = lib_eph(s.n[0], s.n[1], s.n[2], s.b[0], s.n[3], priv);
                trip("ephemeral key pair", o, wickr_ephemeral_keypair_serialize, [](const wickr_buffer_t *b) { return wickr_ephemeral_keypair_create_from_buffer(b, &E); }, pub_eq<wickr_ephemeral_keypair_t>, w);
            }
        },
        [](const Spec &s) { return s.n[1] < g_keys.size() && s.n[2] < 2 && s.n[3] < 3 && (s.n[2] ? s.b[0].size() >= 1 && s.b[0].size() <= 141 : s.b[0].empty() && s.n[3] == 0); } });
    // device: b[dev, rid, nid, sig, esig] n[has eph, kid, ek, esig dg, rk, nk, dg]
    T.push_back({ "device", [](Rng &r) { uint64_t h = r.chance(5, 6); return Spec{ { gen_bytes(r, 300), gen_id(r), gen_id(r), gen_sig(r), h ? gen_sig(r) : Bytes() }, { h, h ? gen_u64(r) : 0, h ? r.below(g_keys.size()) : 0, h ? r.below(3) : 0, r.below(g_keys.size()), r.below(g_keys.size()), r.below(3) } }; },
        [](const Spec &s) { ref::PW w; w.s(1, s.b[0]).s(2, ref_chain_of(s, 1, 4, false)); if (s.n[0]) w.s(3, ref_eph(s.n[1], s.n[2], true, s.b[4], s.n[3])); return w.b; },
        [](const Spec &s, const Bytes &w) {
            for (int priv = 0; priv < 2; priv++) {
                auto c = lib_chain_of(s, 1, 4, priv);
                H<wickr_ephemeral_keypair_t> e;
                if (s.n[0]) e = lib_eph(s.n[1], s.n[2], true, s.b[4], s.n[3], priv);
                auto o = own(wickr_node_create(mkp(s.b[0]), c.get(), e.get()));
                REQUIRE(o, "make", "making a device failed");
                c.release(); e.release();
                trip("device", o, wickr_node_serialize, [](const wickr_buffer_t *b) { return wickr_node_create_from_buffer(b, &E); }, pub_eq<wickr_node_t>, w);
            }
        },
        [=](const Spec &s) { return !s.b[0].empty() && chain_ok(s, 1, 4) && s.n[0] < 2 && (s.n[0] ? s.n[2] < g_keys.size() && s.n[3] < 3 && s.b[4].size() >= 1 && s.b[4].size() <= 141 : s.n[1] == 0 && s.n[2] == 0 && s.n[3] == 0 && s.b[4].empty()); } });
    // key exchanges: n[sender key, count, then (key id, cipher) each], b[(id, iv, tag, ct) each]
    T.push_back({ "key exchanges", [](Rng &r) {
            Spec s;
            uint64_t n = r.pick({ 1, 1, 2, 3, 10 });
            if (r.chance(1, 30)) n = 130;
            s.n = { r.below(g_keys.size()), n };
            for (uint64_t i = 0; i < n; i++) { uint64_t c = r.below(2); s.n.push_back(gen_u64(r)); s.n.push_back(c); s.b.push_back(gen_bytes(r, 128)); s.b.push_back(r.bytes(CI(c).iv_len)); s.b.push_back(c ? Bytes() : r.bytes(16)); s.b.push_back(gen_bytes(r, 129)); }
            return s; },
        [](const Spec &s) {
            ref::PW w;
            w.s(1, key(s.n[0]).pub);
            for (uint64_t i = 0; i < s.n[1]; i++) { ref::PW x; x.s(1, s.b[4 * i]).u(2, s.n[2 + 2 * i]).s(3, ref_cr(s.n[3 + 2 * i], s.b[4 * i + 1], s.b[4 * i + 2], s.b[4 * i + 3])); w.s(2, x.b); }
            return w.b; },
        [](const Spec &s, const Bytes &w) {
            auto a = ExArr(wickr_exchange_array_new((uint32_t)s.n[1]));
            for (uint64_t i = 0; i < s.n[1]; i++) {
                auto c = lib_cr(s.n[3 + 2 * i], s.b[4 * i + 1], s.b[4 * i + 2], s.b[4 * i + 3]);
                auto *x = wickr_key_exchange_create(mkp(s.b[4 * i]), s.n[2 + 2 * i], c.release());
                REQUIRE(x && wickr_exchange_array_set_item(a.get(), (uint32_t)i, x), "make", "making a key exchange failed");
            }
            auto k = lib_pub(s.n[0]);
            auto o = own(wickr_key_exchange_set_create(k.get(), a.get()));
            REQUIRE(o, "make", "making a key exchange set failed");
            k.release(); a.release();
            trip("key exchanges", o, wickr_key_exchange_set_serialize, [](const wickr_buffer_t *b) { return wickr_key_exchange_set_create_from_buffer(&E, b); }, all_eq<wickr_key_exchange_set_t>, w);
            // and sealed under a header key
            auto hk = lib_ck(0, key(s.n[0]).scalar.size() >= 32 ? sub(key(s.n[0]).scalar, 0, 32) : Bytes(32, 9));
            auto enc = own(wickr_key_exchange_set_encrypt(o.get(), &E, hk.get()));
            REQUIRE(enc, "key exchanges:encrypt", "key exchanges can not be encrypted");
            auto back = own(wickr_key_exchange_set_create_from_cipher(&E, enc.get(), hk.get()));
            EXPECT(back && same(o.get(), back.get()), "key exchanges:decrypt", "encrypted key exchanges come back different");
        },
        [](const Spec &s) {
            if (s.n.size() < 4 || s.n[1] < 1 || s.n[1] > 1000 || s.n.size() != 2 + 2 * s.n[1] || s.b.size() != 4 * s.n[1] || s.n[0] >= g_keys.size()) return false;
            for (uint64_t i = 0; i < s.n[1]; i++) { uint64_t c = s.n[3 + 2 * i]; if (c > 1 || s.b[4 * i].empty() || s.b[4 * i + 1].size() != CI(c).iv_len || s.b[4 * i + 2].size() != (c ? 0u : 16u) || s.b[4 * i + 3].empty()) return false; }
            return true; } });
    T.push_back({ "payload", [](Rng &r) { PayloadSpec p = gen_payload(r, 20000); return Spec{ { p.body, p.has_tag ? p.tag : r.bytes(1 + r.below(40)) }, { p.ttl, p.bor, p.type } }; },
        [](const Spec &s) { PayloadSpec p{ s.b[0], s.n[0], s.n[1], true, s.b[1], (uint16_t)s.n[2] }; return ref::enc_payload(p, s.n[1] != 0); },
        [](const Spec &s, const Bytes &w) {
            auto o = make_payload(s.b[0], s.n[0], s.n[1], &s.b[1], (uint16_t)s.n[2]);
            trip("payload", o, wickr_payload_serialize, wickr_payload_create_from_buffer, all_eq<wickr_payload_t>, w);
            // other valid encodings of the same payload
            PayloadSpec p{ s.b[0], s.n[0], s.n[1], true, s.b[1], (uint16_t)s.n[2] };
            View full(ref::enc_payload(p, true, true));
            auto q = own(wickr_payload_create_from_buffer(full));
            EXPECT(q && same(q.get(), o.get()), "payload:explicit-defaults", "a payload with explicit default fields is read differently");
        },
        [](const Spec &s) { return !s.b[0].empty() && !s.b[1].empty() && s.n[2] <= 65535; } });
    T.push_back({ "packet", [](Rng &r) { return Spec{ { gen_bytes(r, 20000), gen_sig(r) }, { r.range(2, 4) } }; },
        [](const Spec &s) { return ref::frame((int)s.n[0], s.b[0], ref_sig(s.b[1], 2)); },
        [](const Spec &s, const Bytes &w) {
            auto sg = lib_sig(s.b[1], 2);
            auto o = own(wickr_packet_create((uint8_t)s.n[0], mkp(s.b[0]), sg.get()));
            REQUIRE(o, "make", "making a packet failed");
            sg.release();
            trip("packet", o, wickr_packet_serialize, wickr_packet_create_from_buffer, all_eq<wickr_packet_t>, w);
        },
        [](const Spec &s) { return s.n[0] >= 2 && s.n[0] <= 4 && !s.b[0].empty() && s.b[1].size() >= 1 && s.b[1].size() <= 141; } });
    T.push_back({ "account keys", [](Rng &r) { return Spec{ { r.bytes(32), r.bytes(32) }, { r.below(2), r.below(2), r.below(g_keys.size()) } }; },
        [](const Spec &s) { ref::PW w; w.u(1, 1).s(2, ref_ck(s.n[0], s.b[0])).s(3, ref_ck(s.n[1], s.b[1])).s(4, key(s.n[2]).der); return w.b; },
        [](const Spec &s, const Bytes &w) {
            auto k = lib_priv(s.n[2]); auto a = lib_ck(s.n[0], s.b[0]), b = lib_ck(s.n[1], s.b[1]);
            auto o = own(wickr_root_keys_create(k.get(), a.get(), b.get()));
            REQUIRE(o, "make", "making account keys failed");
            k.release(); a.release(); b.release();
            trip("account keys", o, wickr_root_keys_serialize, [](const wickr_buffer_t *x) { return wickr_root_keys_create_from_buffer(&E, x); }, all_eq<wickr_root_keys_t>, w);
        },
        [](const Spec &s) { return s.b[0].size() == 32 && s.b[1].size() == 32 && s.n[0] < 2 && s.n[1] < 2 && s.n[2] < g_keys.size(); } });
    T.push_back({ "storage keys", [](Rng &r) { return Spec{ { r.bytes(32), r.bytes(32) }, { r.below(2), r.below(2) } }; },
        [](const Spec &s) { ref::PW w; w.u(1, 1).s(2, ref_ck(s.n[0], s.b[0])).s(3, ref_ck(s.n[1], s.b[1])); return w.b; },
        [](const Spec &s, const Bytes &w) {
            auto a = lib_ck(s.n[0], s.b[0]), b = lib_ck(s.n[1], s.b[1]);
            auto o = own(wickr_storage_keys_create(a.get(), b.get()));
            REQUIRE(o, "make", "making storage keys failed");
            a.release(); b.release();
            trip("storage keys", o, wickr_storage_keys_serialize, wickr_storage_keys_create_from_buffer, all_eq<wickr_storage_keys_t>, w);
        },
        [](const Spec &s) { return s.b[0].size() == 32 && s.b[1].size() == 32 && s.n[0] < 2 && s.n[1] < 2; } });
    T.push_back({ "stream key", [](Rng &r) { uint64_t h = r.chance(2, 3); return Spec{ { r.bytes(32), r.chance(2, 3) ? r.bytes(64) : gen_bytes(r, 200), h ? gen_bytes(r, 5000) : Bytes() }, { r.below(2), r.chance(1, 2) ? r.range(PACKET_PER_EVO_MIN, PACKET_PER_EVO_MAX) : r.pick<uint64_t>({ PACKET_PER_EVO_MIN, PACKET_PER_EVO_DEFAULT, PACKET_PER_EVO_MAX, 127, 128, 16383, 16384 }), h } }; },
        [](const Spec &s) { ref::PW w; w.s(1, ref_ck(s.n[0], s.b[0])).s(2, s.b[1]).u(3, s.n[1]); if (s.n[2]) w.s(4, s.b[2]); return w.b; },
        [](const Spec &s, const Bytes &w) {
            auto c = lib_ck(s.n[0], s.b[0]);
            auto o = own(wickr_stream_key_create_user_data(c.get(), mkp(s.b[1]), (uint32_t)s.n[1], s.n[2] ? mkp(s.b[2]) : NULL));
            REQUIRE(o, "make", "making a stream key failed");
            c.release();
            trip("stream key", o, wickr_stream_key_serialize, wickr_stream_key_create_from_buffer, all_eq<wickr_stream_key_t>, w);
        },
        [](const Spec &s) { return s.b[0].size() == 32 && !s.b[1].empty() && s.n[0] < 2 && s.n[1] >= PACKET_PER_EVO_MIN && s.n[1] <= PACKET_PER_EVO_MAX && s.n[2] < 2 && (s.n[2] != 0) == !s.b[2].empty(); } });
    // transport packet: b[body, mac] n[type, mac type, seq or flags, version]
    T.push_back({ "transport packet", [](Rng &r) { uint64_t t = r.below(2), m = r.below(3); return Spec{ { gen_bytes(r, 5000), m == TRANSPORT_MAC_TYPE_EC_P521 ? ref_sig(gen_sig(r), 2) : Bytes() }, { t, m, gen_u64(r), t == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? r.pick<uint64_t>({ 1, 0, 2, 255, 128 }) : 0 } }; },
        [](const Spec &s) { return cat({ s.n[0] == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? ref::hs_meta((uint8_t)s.n[1], (uint8_t)s.n[3], s.n[2]) : ref::data_meta(s.n[2], (uint8_t)s.n[1]), s.b[0], s.b[1] }); },
        [](const Spec &s, const Bytes &w) {
            wickr_transport_packet_meta_t m;
            memset(&m, 0, sizeof m);
            if (s.n[0] == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) { wickr_transport_packet_meta_initialize_handshake(&m, (uint8_t)s.n[3], (wickr_transport_packet_mac_type)s.n[1]); m.body_meta.handshake.flags = s.n[2]; }
            else wickr_transport_packet_meta_initialize_data(&m, s.n[2], (wickr_transport_packet_mac_type)s.n[1]);
            auto o = own(wickr_transport_packet_create(m, mkp(s.b[0])));
            REQUIRE(o, "make", "making a transport packet failed");
            if (!s.b[1].empty()) o->mac = mkp(s.b[1]);
            auto eqp = [](const wickr_transport_packet_t *a, const wickr_transport_packet_t *b) {
                if (!same(a->body, b->body) || !same(a->mac, b->mac) || a->meta.body_type != b->meta.body_type || a->meta.mac_type != b->meta.mac_type) return false;
                if (a->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) return a->meta.body_meta.handshake.flags == b->meta.body_meta.handshake.flags && a->meta.body_meta.handshake.protocol_version == b->meta.body_meta.handshake.protocol_version;
                return a->meta.body_meta.data.sequence_number == b->meta.body_meta.data.sequence_number;
            };
            trip("transport packet", o, wickr_transport_packet_serialize, wickr_transport_packet_create_from_buffer, eqp, w);
            // its metadata alone
            auto ms = own(wickr_transport_packet_meta_serialize(&m));
            size_t ml = s.n[0] == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? 10 : 9;
            EXPECT(ms && B(ms) == sub(w, 0, ml), "transport metadata:format", "serialized metadata is not the documented form");
            wickr_transport_packet_meta_t m2;
            View wv(w);
            EXPECT(wickr_transport_packet_meta_initialize_buffer(&m2, wv) == (int)ml, "transport metadata:read", "reading metadata did not consume %zu bytes", ml);
            auto ms2 = own(wickr_transport_packet_meta_serialize(&m2));
            EXPECT(ms2 && same(ms.get(), ms2.get()), "transport metadata:stable", "metadata read back serializes differently");
        },
        [](const Spec &s) { return !s.b[0].empty() && s.n[0] < 2 && s.n[1] < 3 && (s.n[1] == TRANSPORT_MAC_TYPE_EC_P521 ? s.b[1].size() == 143 : s.b[1].empty()) && s.n[3] <= 255 && (s.n[0] == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE || s.n[3] == 0); } });
    // context: b[local, remote, rid, nid, sig] n[c, c, rk, nk, dg]
    T.push_back({ "context", [](Rng &r) { return Spec{ { r.bytes(32), r.bytes(32), gen_id(r), gen_id(r), gen_sig(r) }, { r.below(2), r.below(2), r.below(g_keys.size()), r.below(g_keys.size()), r.below(3) } }; },
        [](const Spec &s) { ref::PW st, w; st.u(1, 1).s(2, ref_ck(s.n[0], s.b[0])).s(3, ref_ck(s.n[1], s.b[1])); w.s(1, st.b).s(2, ref_chain_of(s, 2, 2, true)); return w.b; },
        [](const Spec &s, const Bytes &w) {
            auto sys = mk(Bytes(9, 3));
            auto di = own(wickr_dev_info_create_new(&E, sys.get()));
            auto a = lib_ck(s.n[0], s.b[0]), b = lib_ck(s.n[1], s.b[1]);
            auto st = own(wickr_storage_keys_create(a.get(), b.get()));
            a.release(); b.release();
            auto ch = lib_chain_of(s, 2, 2, true);
            auto dic = own(wickr_dev_info_copy(di.get()));
            auto o = own(wickr_ctx_create(E, dic.get(), ch.get(), st.get()));
            REQUIRE(o, "make", "making a context failed");
            dic.release(); ch.release(); st.release();
            trip("context", o, wickr_ctx_serialize, [&](const wickr_buffer_t *x) { auto d = own(wickr_dev_info_copy(di.get())); auto *c = wickr_ctx_create_from_buffer(E, d.get(), x); if (c) d.release(); return c; }, all_eq<wickr_ctx_t>, w);
        },
        [=](const Spec &s) { return s.b[0].size() == 32 && s.b[1].size() == 32 && s.n[0] < 2 && s.n[1] < 2 && chain_ok(s, 2, 2); } });
}

void prop_init()
{
    rand_install();
    E = plain_engine();
    Rng r(77 + g_seed);
    for (int i = 0; i < 12; i++) g_keys.push_back(ref::ec_gen(r));
    for (uint8_t x : { 1, 2, 255 }) { Bytes sc(66, 0); sc[65] = x; g_keys.push_back(ref::ec_from_scalar(sc)); }   // private keys with leading zeroes
    { Bytes sc(66, 0); sc[2] = 9; sc[40] = 1; g_keys.push_back(ref::ec_from_scalar(sc)); }
    add_types();
}
void prop_fini() {}

// a description differing from the given one in one field
static bool neighbour(Rng &r, const Type &t, const Spec &s, Spec &o)
{
    for (int tries = 0; tries < 40; tries++) {
        o = s;
        size_t f = r.below(s.b.size() + s.n.size());
        if (f < s.b.size()) {
            Bytes &x = o.b[f];
            if (x.empty()) continue;
            switch (r.below(6)) {
                case 0: x.push_back(r.chance(1, 2) ? 0 : (uint8_t)r.u64()); break;
                case 1: x.insert(x.begin(), 0); break;
                case 2: x.pop_back(); break;
                case 3: if (o.b.size() > 1) { size_t g = (f + 1) % o.b.size(); if (!o.b[g].empty()) { o.b[g].insert(o.b[g].begin(), x.back()); x.pop_back(); break; } }   // a byte moves to the next field
                // fall through
                default: x[r.below(x.size())] ^= (uint8_t)(1u << r.below(8)); break;
            }
        } else {
            uint64_t &n = o.n[f - s.b.size()];
            switch (r.below(3)) { case 0: n += 1; break; case 1: n -= 1; break; default: n ^= 1ull << r.below(64); }
        }
        if (dump(o) != dump(s) && t.ok(o)) return true;
    }
    return false;
}

void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    const Type &t = T[k % T.size()];
    Spec s = t.gen(r);
    REQUIRE(t.ok(s), "harness", "%s: generator made an invalid description", t.name);
    Bytes w = t.enc(s);
    t.trip(s, w);
    distinct(fmt("%s %zu", t.name, w.size()));
    if (k < T.size()) sample(fmt("%s: %s", t.name, hex(w, 60).c_str()));
    for (int i = 0; i < 2; i++) {
        Spec o;
        if (!neighbour(r, t, s, o)) continue;
        Bytes w2 = t.enc(o);
        // the independent codec itself keeps them apart, and the library's bytes equal it
        EXPECT(w2 != w, fmt("%s:ambiguous", t.name), "%s: two different objects have the same documented encoding", t.name);
        t.trip(o, w2);
        ev("neighbours");
    }
}
} // namespace v
