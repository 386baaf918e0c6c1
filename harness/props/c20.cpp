// C20: P-521 keys, agreement and signatures conform; invalid keys and signatures are refused; conversions are exact.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C20";
static wickr_crypto_engine_t E;
static EC_GROUP *G;
static BIGNUM *N, *P, *CB;
static BN_CTX *BC;
// scalars whose point has a coordinate with leading zero bytes
static std::vector<Bytes> zero_x, zero_y;
struct Bn {
    BIGNUM *b;
    Bn() : b(BN_new()) {}
    explicit Bn(const Bytes &x) : b(BN_bin2bn(x.data(), (int)x.size(), NULL)) {}
    Bn(const Bn &o) : b(BN_dup(o.b)) {}
    Bn &operator=(const Bn &o) { BN_copy(b, o.b); return *this; }
    ~Bn() { BN_free(b); }
    Bytes pad(int n) const { Bytes o(n); if (BN_bn2binpad(b, o.data(), n) < 0) return Bytes(); return o; }
};
void prop_init()
{
    E = plain_engine();
    G = EC_GROUP_new_by_curve_name(NID_secp521r1);
    N = BN_new(); P = BN_new(); CB = BN_new(); BC = BN_CTX_new();
    EC_GROUP_get_order(G, N, NULL);
    Bn a;
    EC_GROUP_get_curve(G, P, a.b, CB, BC);
    // consecutive multiples of the generator from a fixed start
    Bn d(sub(ref::sha(512, B(std::string("start"))), 0, 60)), x, y;
    EC_POINT *q = EC_POINT_new(G);
    EC_POINT_mul(G, q, d.b, NULL, NULL, BC);
    for (int i = 0; i < 4000; i++) {
        EC_POINT_get_affine_coordinates(G, q, x.b, y.b, BC);
        if (BN_num_bytes(x.b) <= 64) zero_x.push_back(d.pad(66));
        if (BN_num_bytes(y.b) <= 64) zero_y.push_back(d.pad(66));
        EC_POINT_add(G, q, q, EC_GROUP_get0_generator(G), BC);
        BN_add_word(d.b, 1);
    }
    EC_POINT_free(q);
}
void prop_fini() { EC_GROUP_free(G); BN_free(N); BN_free(P); BN_free(CB); BN_CTX_free(BC); zero_x.clear(); zero_y.clear(); }

// is this the library's form of an affine point of the curve, by the curve equation
static bool on_curve(const Bytes &pub)
{
    if (pub.size() != 134 || pub[0] != EC_CURVE_NIST_P521.identifier || pub[1] != 4) return false;
    Bn x(sub(pub, 2, 66)), y(sub(pub, 68, 66)), l, rr, t;
    if (BN_cmp(x.b, P) >= 0 || BN_cmp(y.b, P) >= 0) return false;
    BN_mod_sqr(l.b, y.b, P, BC);
    BN_mod_sqr(rr.b, x.b, P, BC);
    BN_mod_mul(rr.b, rr.b, x.b, P, BC);
    BN_mod_add(t.b, x.b, x.b, P, BC);
    BN_mod_add(t.b, t.b, x.b, P, BC);
    BN_mod_sub(rr.b, rr.b, t.b, P, BC);
    BN_mod_add(rr.b, rr.b, CB, P, BC);
    return BN_cmp(l.b, rr.b) == 0;
}
static ref::Key some_key(Rng &r, const char **kind = nullptr)
{
    const char *k = "random";
    ref::Key o;
    switch (r.below(6)) {
        case 0: k = "x with leading zeros"; o = ref::ec_from_scalar(r.pick(zero_x)); break;
        case 1: k = "y with leading zeros"; o = ref::ec_from_scalar(r.pick(zero_y)); break;
        case 2: k = "small scalar"; { Bytes s(66, 0); s[65] = (uint8_t)r.range(1, 255); if (r.chance(1, 2)) s[64 - r.below(60)] = 1; o = ref::ec_from_scalar(s); } break;
        case 3: k = "scalar near the order"; { Bn n; BN_copy(n.b, N); BN_sub_word(n.b, r.range(1, 200)); o = ref::ec_from_scalar(n.pad(66)); } break;
        default: o = ref::ec_gen(r);
    }
    if (kind) *kind = k;
    return o;
}
static H<wickr_ec_key_t> lib_key(const ref::Key &k, bool priv)
{
    View b(priv ? k.der : k.pub);
    return own(E.wickr_crypto_engine_ec_key_import(b, priv));
}
static Bytes strip(const Bytes &b) { size_t i = 0; while (i + 1 < b.size() && !b[i]) i++; return sub(b, i); }
static Bytes der_int(Bytes v) { v = strip(v); if (v.empty()) v = { 0 }; if (v[0] & 128) v.insert(v.begin(), 0); return cat({ Bytes{ 2, (uint8_t)v.size() }, v }); }
static Bytes der_sig(const Bytes &rr, const Bytes &ss)
{
    Bytes b = cat({ der_int(rr), der_int(ss) });
    if (b.size() < 128) return cat({ Bytes{ 0x30, (uint8_t)b.size() }, b });
    return cat({ Bytes{ 0x30, 0x81, (uint8_t)b.size() }, b });
}
static const wickr_digest_t DG[3] = { DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 };

static void keys(Rng &r)
{
    auto k = own(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
    REQUIRE(k, "generation-failed", "no key was generated");
    Bytes pub = B(k->pub_data), der = B(k->pri_data);
    EXPECT(on_curve(pub), "invalid-key", "a generated public key is not a point of P-521");
    Bytes sc = scalar_of(k.get());
    Bn d(sc);
    EXPECT(!BN_is_zero(d.b) && BN_cmp(d.b, N) < 0, "invalid-key", "a generated private key is not a scalar of P-521");
    ref::Key rk = ref::ec_from_scalar(sc);
    EXPECT(rk.pub == pub && rk.der == der, "mismatched-key", "a generated key pair is not a pair (or not in the standard encoding)");
    EXPECT(k->curve.identifier == EC_CURVE_NIST_P521.identifier && k->curve.max_pub_size == 134 && k->curve.signature_size == 143, "wrong-curve", "a generated key names another curve");
    ev("generated");
    distinct(fmt("gen %02x %02x", pub[2], pub[3]));
    // imports and exports
    const char *kind;
    ref::Key q = some_key(r, &kind);
    auto a = lib_key(q, true), b = lib_key(q, false);
    REQUIRE(a && b, "import-refused", "a valid key (%s) is refused", kind);
    EXPECT(eq(a->pub_data, q.pub) && eq(a->pri_data, q.der), "import-changed", "importing a private key (%s) changed it", kind);
    EXPECT(eq(b->pub_data, q.pub) && !b->pri_data, "import-changed", "importing a public key (%s) changed it", kind);
    auto again = own(E.wickr_crypto_engine_ec_key_import(a->pri_data, true));
    EXPECT(same(again.get(), a.get()), "import-changed", "importing an exported key (%s) again changed it", kind);
    auto f = own(wickr_ec_key_get_pubdata_fixed_len(a.get()));
    EXPECT(eq(f.get(), q.pub), "fixed-length", "the fixed-length form of a full public key differs from it");
    // an encoding of the private key without its public half
    { EC_KEY *e = ref::ec_priv(q.der); EC_KEY_set_enc_flags(e, EC_PKEY_NO_PUBKEY); uint8_t *p = NULL; int n = i2d_ECPrivateKey(e, &p); Bytes nd(p, p + n); OPENSSL_free(p); EC_KEY_free(e);
      View V(nd); auto x = own(E.wickr_crypto_engine_ec_key_import(V, true));
      if (x) EXPECT(eq(x->pub_data, q.pub) && scalar_of(x.get()) == q.scalar, "import-changed", "a private key without its public half imports as another key"); }
    auto hexs = hex(q.scalar, 200);
    auto t = own(openssl_ec_key_import_test_key(EC_CURVE_NIST_P521, hexs.c_str()));
    EXPECT(t && eq(t->pub_data, q.pub) && eq(t->pri_data, q.der), "import-changed", "a key made from its scalar (%s) is another key", kind);
    ev("imported", 3);
    distinct(fmt("import %s %02x", kind, q.pub[2]));
}
struct Bad { Bytes pub; std::string what; };
static std::vector<Bad> bad_points(Rng &r, const Bytes &pub)
{
    std::vector<Bad> o;
    auto add = [&](const Bytes &b, const std::string &w) { if (!ref::ec_pub_ok(b) || b.size() < 2) o.push_back({ b, w }); };
    for (int i = 0; i < 12; i++) { Bytes b = pub; b[2 + r.below(132)] ^= 1 << r.below(8); add(b, "a changed coordinate"); }
    { Bytes b = pub; std::swap_ranges(b.begin() + 2, b.begin() + 68, b.begin() + 68); add(b, "swapped coordinates"); }
    { Bytes b = pub; for (size_t i = 68; i < 134; i++) b[i] = 0; add(b, "y = 0"); }
    { Bytes b(134, 0); b[0] = pub[0]; b[1] = 4; add(b, "(0,0)"); }
    { Bytes b(134, 0xff); b[0] = pub[0]; b[1] = 4; add(b, "all ones"); }
    for (int yy = 0; yy < 2; yy++) { Bn c(sub(pub, yy ? 68 : 2, 66)); BN_add(c.b, c.b, P); Bytes w = c.pad(66); if (w.size() == 66) { Bytes b = pub; std::copy(w.begin(), w.end(), b.begin() + (yy ? 68 : 2)); add(b, "a coordinate not reduced"); } }
    add(Bytes{ pub[0], 0 }, "the point at infinity");
    { Bytes b(134, 0); b[0] = pub[0]; add(b, "the point at infinity, padded"); }
    { Bytes b = pub; b[0] = (uint8_t)r.pick<int>({ 1, 2, 3, 4, 5, 16, 127, 255 }); if (b[0] != pub[0]) o.push_back({ b, "an unknown curve" }); }
    for (int i = 0; i < 4; i++) { Bytes b = pub; b[1] = (uint8_t)r.pick<int>({ 0, 1, 5, 6, 7, 8, 255, 2, 3 }); add(b, "another point form"); }
    { Bytes b = pub; b.push_back(0); add(b, "a longer key"); }
    { Bytes b = pub; b.pop_back(); add(b, "a shorter key"); }
    for (size_t n : { (size_t)1, (size_t)2, (size_t)66, (size_t)67, (size_t)68, (size_t)133 }) add(sub(pub, 0, n), "a prefix of a key");
    { Bytes b = sub(pub, 0, 68); b[1] = (uint8_t)(2 + r.below(2)); b[2 + r.below(66)] ^= 1 << r.below(8); add(b, "a compressed x with no point"); }
    // a point of another curve
    { EC_KEY *k = EC_KEY_new_by_curve_name(r.pick({ NID_X9_62_prime256v1, NID_secp384r1 })); EC_KEY_generate_key(k); uint8_t *p = NULL; int n = i2o_ECPublicKey(k, &p); Bytes b(p, p + n); OPENSSL_free(p); EC_KEY_free(k); add(cat({ Bytes{ pub[0] }, b }), "a point of another curve"); }
    return o;
}
static void invalid(Rng &r)
{
    ref::Key k = some_key(r), me = some_key(r);
    auto mine = lib_key(me, true);
    Bytes msg = gen_bytes(r, 200);
    View M(msg);
    auto sig = own(E.wickr_crypto_engine_ec_sign(mine.get(), M, DIGEST_SHA_512));
    for (auto &b : bad_points(r, k.pub)) {
        View V(b.pub);
        ev("invalid_points");
        auto x = own(E.wickr_crypto_engine_ec_key_import(V, false));
        EXPECT(!x, "accepted:" + b.what, "%s is imported as a public key", b.what.c_str());
        auto raw = own(wickr_ec_key_create(EC_CURVE_NIST_P521, mkp(b.pub), NULL));
        auto s = own(E.wickr_crypto_engine_gen_shared_secret(mine.get(), raw.get()));
        EXPECT(!s, "agreed:" + b.what, "a secret is agreed with %s", b.what.c_str());
        if (sig) EXPECT(!E.wickr_crypto_engine_ec_verify(sig.get(), raw.get(), M), "verified:" + b.what, "a signature verifies under %s", b.what.c_str());
        distinct("invalid " + b.what);
    }
    // whatever is accepted is a point of the curve, whichever way it was written
    for (int i = 0; i < 6; i++) {
        Bytes b;
        if (r.chance(1, 2)) { b = sub(k.pub, 0, 68); b[1] = (uint8_t)(2 + r.below(2)); } else { b = k.pub; b[1] = (uint8_t)(6 + r.below(2)); }
        View V(b);
        auto x = own(E.wickr_crypto_engine_ec_key_import(V, false));
        EXPECT(!x || ref::ec_pub_ok(b), "accepted:form", "a public key that stands for no point is imported");
        if (x) {
            Bytes s1, s2;
            ref::ecdh(me.der, b, s1);
            auto s = own(E.wickr_crypto_engine_gen_shared_secret(mine.get(), x.get()));
            EXPECT(eq(s.get(), s1), "wrong-secret", "the secret agreed with a key in another form is wrong");
            auto f = own(wickr_ec_key_get_pubdata_fixed_len(x.get()));
            Bytes want = B(x->pub_data);
            want.resize(134, 0);
            EXPECT(eq(f.get(), want), "fixed-length", "the fixed-length form of a shorter public key is wrong");
            ev("other_forms");
        }
    }
    { auto big = own(wickr_ec_key_create(EC_CURVE_NIST_P521, mkp(r.bytes(135)), NULL)); EXPECT(!own(wickr_ec_key_get_pubdata_fixed_len(big.get())), "fixed-length", "a fixed-length form of a key that is too long"); }
    // private keys
    for (int i = 0; i < 8; i++) {
        std::string what;
        Bytes b = mutate(r, me.der, &what);
        View V(b);
        auto x = own(E.wickr_crypto_engine_ec_key_import(V, true));
        ev("altered_private");
        if (x) EXPECT(ref::ec_pub_ok(B(x->pub_data)), "accepted:private", "an altered private key imports with a public key that is not a point");
        auto p = own(E.wickr_crypto_engine_ec_key_import(V, false));
        EXPECT(!p, "accepted:private", "a private key is imported as a public key");
    }
    { EC_KEY *o = EC_KEY_new_by_curve_name(r.pick({ NID_X9_62_prime256v1, NID_secp384r1, NID_secp256k1 })); EC_KEY_generate_key(o); uint8_t *p = NULL; int n = i2d_ECPrivateKey(o, &p); Bytes b(p, p + n); OPENSSL_free(p); EC_KEY_free(o);
      View V(b); EXPECT(!own(E.wickr_crypto_engine_ec_key_import(V, true)), "accepted:other-curve", "a private key of another curve is imported"); ev("altered_private"); }
    { View V(k.pub); EXPECT(!own(E.wickr_crypto_engine_ec_key_import(V, true)), "accepted:public", "a public key is imported as a private key"); }
    EXPECT(!own(E.wickr_crypto_engine_ec_key_import(NULL, true)) && !own(E.wickr_crypto_engine_ec_key_import(NULL, false)), "accepted:nothing", "no data imports as a key");
    for (auto c : { 0, 2, 3, 255 }) { wickr_ec_curve_t cv = EC_CURVE_NIST_P521; cv.identifier = (wickr_ec_curve_id)c; if (c == EC_CURVE_NIST_P521.identifier) continue; EXPECT(!own(E.wickr_crypto_engine_ec_rand_key(cv)), "accepted:curve", "a key of an unknown curve is generated"); EXPECT(!wickr_ec_curve_find((uint8_t)c), "accepted:curve", "an unknown curve is found"); }
}
static void agree(Rng &r)
{
    const char *ka = "", *kb = "";
    ref::Key a = some_key(r, &ka), b;
    if (r.chance(1, 3)) {   // a secret with leading zeros: b = target / a
        Bn t(r.pick(zero_x)), d(a.scalar), i;
        BN_mod_inverse(i.b, d.b, N, BC);
        BN_mod_mul(i.b, i.b, t.b, N, BC);
        b = ref::ec_from_scalar(i.pad(66));
        kb = "for a secret with leading zeros";
    } else if (r.chance(1, 8)) { b = a; kb = "the same key"; }
    else b = some_key(r, &kb);
    auto A = lib_key(a, true), Bk = lib_key(b, true), Ap = lib_key(a, false), Bp = lib_key(b, false);
    REQUIRE(A && Bk && Ap && Bp, "import-refused", "valid keys are refused");
    std::string s0 = snap(A.get()), s1 = snap(Bp.get());
    auto x = own(E.wickr_crypto_engine_gen_shared_secret(A.get(), Bp.get())), y = own(E.wickr_crypto_engine_gen_shared_secret(Bk.get(), Ap.get()));
    Bytes w;
    ref::ecdh(a.der, b.pub, w);
    EXPECT(eq(x.get(), w) && eq(y.get(), w), "wrong-secret", "the agreed secret of (%s, %s) is not the standard value on both sides", ka, kb);
    EXPECT(snap(A.get()) == s0 && snap(Bp.get()) == s1, "input-changed", "agreement changed a key");
    EXPECT(!own(E.wickr_crypto_engine_gen_shared_secret(Ap.get(), Bp.get())), "agreed:no-private", "a secret is agreed without a private key");
    EXPECT(!own(E.wickr_crypto_engine_gen_shared_secret(A.get(), NULL)) && !own(E.wickr_crypto_engine_gen_shared_secret(NULL, Bp.get())), "agreed:nothing", "a secret is agreed with nothing");
    ev("agreed");
    distinct(fmt("agree %s %s %02x%02x", ka, kb, w[0], w[1]));
}
// a signature whose values are chosen, with the key it is valid under
static void craft(Rng &r, const Bytes &msg, int bits, ref::Key &key, Bytes &rr, Bytes &ss)
{
    Bytes kk = r.chance(1, 2) ? r.pick(zero_x) : ref::ec_gen(r).scalar;
    Bn k(kk), x, s, e(ref::sha(bits, msg)), t, i;
    EC_POINT *q = EC_POINT_new(G);
    EC_POINT_mul(G, q, k.b, NULL, NULL, BC);
    EC_POINT_get_affine_coordinates(G, q, x.b, NULL, BC);
    EC_POINT_free(q);
    BN_nnmod(x.b, x.b, N, BC);
    Bytes sb = r.bytes(66);
    for (size_t z = r.pick<size_t>({ 0, 1, 2, 3, 10, 33, 64, 65 }), j = 0; j < z; j++) sb[j] = 0;
    sb[65] |= 1;
    if (r.chance(1, 3)) { size_t j = 0; while (j < 65 && !sb[j]) j++; sb[j] |= 0x80; }
    Bn sv(sb);
    BN_nnmod(sv.b, sv.b, N, BC);
    BN_mod_mul(t.b, sv.b, k.b, N, BC);
    BN_mod_sub(t.b, t.b, e.b, N, BC);
    BN_mod_inverse(i.b, x.b, N, BC);
    BN_mod_mul(t.b, t.b, i.b, N, BC);
    key = ref::ec_from_scalar(t.pad(66));
    rr = x.pad(66);
    ss = sv.pad(66);
}
static void check_block(Rng &r, const wickr_ecdsa_result_t *s, const Bytes &der, int digest)
{
    auto b = own(wickr_ecdsa_result_serialize(s));
    EXPECT(eq(b.get(), ref::sig_block(der, digest)), "wrong-block", "the encoding of a signature of %zu bytes is not the documented one", der.size());
    if (!b) return;
    auto d = own(wickr_ecdsa_result_create_from_buffer(b.get()));
    EXPECT(d && same(d.get(), s), "block-changed", "decoding an encoded signature of %zu bytes gives another", der.size());
    auto c = own(wickr_ecdsa_result_copy(s));
    EXPECT(c && same(c.get(), s), "copy-differs", "a copy of a signature differs");
    for (int i = 0; i < 3; i++) {
        Bytes m = B(b);
        m[0] = (uint8_t)r.u64();
        if ((m[0] >> 4) == EC_CURVE_NIST_P521.identifier && (m[0] & 15) >= 1 && (m[0] & 15) <= 3) continue;
        if (wickr_digest_find_with_id(m[0] & 15) && wickr_ec_curve_find(m[0] >> 4)) continue;
        View V(m);
        EXPECT(!own(wickr_ecdsa_result_create_from_buffer(V)), "accepted:block", "a signature naming curve %d and digest %d is decoded", m[0] >> 4, m[0] & 15);
    }
    { Bytes m = B(b); m[1] = (uint8_t)r.range(141, 255); View V(m); EXPECT(!own(wickr_ecdsa_result_create_from_buffer(V)), "accepted:block", "a signature block with more padding than data is decoded"); }
    for (size_t n : { (size_t)1, (size_t)2 }) { View V(sub(B(b), 0, n)); EXPECT(!own(wickr_ecdsa_result_create_from_buffer(V)), "accepted:block", "a truncated signature block is decoded"); }
    ev("blocks");
}
static void signatures(Rng &r)
{
    int di = (int)r.below(3), bits = DG[di].size * 8;
    const wickr_digest_t dg = DG[di];
    Bytes msg = gen_bytes(r, 3000);
    if (r.chance(1, 12)) { msg = r.bytes(r.pick<size_t>({ 4096, 65535, 65536, 65537, 131072 + r.below(9), (1u << 20) + r.below(4096) })); ev("large_data"); }
    View M(msg);
    const char *kind = "";
    ref::Key k;
    Bytes rr, ss, der;
    H<wickr_ecdsa_result_t> sig;
    int how = (int)r.below(3);
    if (how == 0) {
        k = some_key(r, &kind);
        auto priv = lib_key(k, true);
        REQUIRE(priv, "import-refused", "a valid key is refused");
        sig = own(E.wickr_crypto_engine_ec_sign(priv.get(), M, dg));
        REQUIRE(sig, "signing-failed", "signing %zu bytes with a key (%s) failed", msg.size(), kind);
        der = B(sig->sig_data);
        EXPECT(sig->digest_mode.digest_id == dg.digest_id && sig->curve.identifier == EC_CURVE_NIST_P521.identifier, "wrong-signature", "a signature names other parameters than it was made with");
        EXPECT(eq(M, msg) && eq(priv->pri_data, k.der), "input-changed", "signing changed its input");
    } else if (how == 1) { kind = "reference"; k = some_key(r); der = ref::ecdsa_sign(k.der, msg, bits); }
    else { kind = "crafted"; craft(r, msg, bits, k, rr, ss); der = der_sig(rr, ss); }
    if (!sig) sig = own(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mkp(der)));
    auto pub = lib_key(k, false);
    REQUIRE(pub, "import-refused", "a valid key is refused");
    bool ok = ref::ecdsa_verify(k.pub, msg, der, bits);
    EXPECT(ok, how == 2 ? "harness" : "wrong-signature", "a %s signature of %zu bytes does not verify with the reference", kind, msg.size());
    EXPECT(E.wickr_crypto_engine_ec_verify(sig.get(), pub.get(), M), "signature-refused", "a valid signature (%s, %zu bytes, SHA-%d) is refused", kind, der.size(), bits);
    ev(how == 0 ? "lib_signed" : how == 1 ? "ref_signed" : "crafted_signed");
    distinct(fmt("sig %s %zu %d", kind, der.size(), bits));
    check_block(r, sig.get(), der, dg.digest_id);
    // raw form
    const uint8_t *dp = der.data();
    ECDSA_SIG *es = d2i_ECDSA_SIG(NULL, &dp, (long)der.size());
    const BIGNUM *br, *bs;
    ECDSA_SIG_get0(es, &br, &bs);
    rr.assign(66, 0); ss.assign(66, 0);
    BN_bn2binpad(br, rr.data(), 66);
    BN_bn2binpad(bs, ss.data(), 66);
    ECDSA_SIG_free(es);
    auto raw = own(E.wickr_crypto_engine_ecdsa_to_raw(sig.get()));
    EXPECT(eq(raw.get(), cat({ rr, ss })), "wrong-raw", "the raw form of a signature (%s, %zu bytes) is not its two values", kind, der.size());
    View R(cat({ rr, ss }));
    auto back = own(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, R));
    EXPECT(back && same(back.get(), sig.get()), "raw-changed", "a signature (%s, %zu bytes) does not survive conversion to raw form and back", kind, der.size());
    ev("raw");
    // what it must not verify
    auto no = [&](const wickr_ecdsa_result_t *s, const wickr_ec_key_t *kk, const wickr_buffer_t *m, const char *what) { ev("wrong_signatures"); EXPECT(!E.wickr_crypto_engine_ec_verify(s, kk, m), std::string("verified:") + what, "a signature verifies for %s", what); };
    for (int i = 0; i < 3; i++) { Bytes m2 = mutate(r, msg); if (m2 != msg) { View M2(m2); no(sig.get(), pub.get(), M2, "other data"); } }
    { Bytes m2 = msg; m2.push_back(0); View M2(m2); no(sig.get(), pub.get(), M2, "longer data"); if (msg.size() > 1) { View M3(sub(msg, 0, msg.size() - 1)); no(sig.get(), pub.get(), M3, "shorter data"); } }
    { auto o = lib_key(some_key(r), false); if (o && !same(o.get(), pub.get())) no(sig.get(), o.get(), M, "another key"); }
    { // the negated key: same x, other y
      Bytes n = k.pub; Bn y(sub(n, 68, 66)); BN_sub(y.b, P, y.b); Bytes yb = y.pad(66); std::copy(yb.begin(), yb.end(), n.begin() + 68); View V(n); auto o = own(E.wickr_crypto_engine_ec_key_import(V, false)); if (o && n != k.pub) no(sig.get(), o.get(), M, "the opposite point"); }
    for (int j = 0; j < 3; j++) if (j != di) { auto o = own(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DG[j], mkp(der))); no(o.get(), pub.get(), M, "another digest"); }
    auto with = [&](const Bytes &d, const char *what) {
        if (d == der || d.empty()) return;
        auto o = own(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mkp(d)));
        no(o.get(), pub.get(), M, what);
    };
    for (int i = 0; i < 6; i++) { Bytes d = der; d[r.below(d.size())] ^= 1 << r.below(8); with(d, "a changed bit"); with(mutate(r, der), "an altered signature"); }
    Bytes zero(66, 0), nb(66);
    BN_bn2binpad(N, nb.data(), 66);
    with(der_sig(zero, ss), "r = 0"); with(der_sig(rr, zero), "s = 0"); with(der_sig(zero, zero), "r = s = 0");
    with(der_sig(nb, ss), "r = n"); with(der_sig(rr, nb), "s = n");
    { Bn t(rr); BN_add(t.b, t.b, N); with(der_sig(t.pad(67), ss), "r + n"); Bn u(ss); BN_add(u.b, u.b, N); with(der_sig(rr, u.pad(67)), "s + n"); }
    with(der_sig(ss, rr), "swapped values");
    { Bytes d = der; d.push_back(0); with(d, "trailing data"); }
    { // negative values
      Bytes a = strip(rr); Bytes d = cat({ Bytes{ 2, (uint8_t)(a.size()) }, a }); d[2] |= 0x80; Bytes b = cat({ d, der_int(ss) }); with(b.size() < 128 ? cat({ Bytes{ 0x30, (uint8_t)b.size() }, b }) : cat({ Bytes{ 0x30, 0x81, (uint8_t)b.size() }, b }), "a negative value"); }
    { // padded integers and long-form lengths
      Bytes a = strip(rr); a.insert(a.begin(), 2, 0); Bytes b = cat({ Bytes{ 2, (uint8_t)a.size() }, a, der_int(ss) }); with(cat({ Bytes{ 0x30, 0x81, (uint8_t)b.size() }, b }), "a padded value");
      Bytes c = cat({ der_int(rr), der_int(ss) }); with(cat({ Bytes{ 0x30, 0x82, 0, (uint8_t)c.size() }, c }), "a long-form length"); }
    for (size_t n : { (size_t)1, (size_t)2, der.size() / 2, der.size() - 1 }) with(sub(der, 0, n), "a prefix");
    with(r.bytes(der.size()), "random bytes");
    EXPECT(!E.wickr_crypto_engine_ec_verify(NULL, pub.get(), M) && !E.wickr_crypto_engine_ec_verify(sig.get(), NULL, M) && !E.wickr_crypto_engine_ec_verify(sig.get(), pub.get(), NULL), "verified:nothing", "nothing verifies");
    EXPECT(!own(E.wickr_crypto_engine_ec_sign(pub.get(), M, dg)), "signed:no-private", "a signature was made without a private key");
}
static void raws(Rng &r)
{
    const wickr_digest_t dg = DG[r.below(3)];
    // any two values survive
    Bytes raw = r.bytes(132);
    for (int h = 0; h < 2; h++) {
        size_t z = r.pick<size_t>({ 0, 0, 1, 2, 30, 65, 66 });
        for (size_t i = 0; i < z; i++) raw[h * 66 + i] = 0;
        if (r.chance(1, 6)) for (size_t i = 0; i < 66; i++) raw[h * 66 + i] = 0xff;
    }
    View R(raw);
    auto s = own(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, R));
    Bytes want = der_sig(sub(raw, 0, 66), sub(raw, 66));
    EXPECT(s && eq(s->sig_data, want) && s->digest_mode.digest_id == dg.digest_id, "wrong-raw", "a signature made from raw values is not their standard encoding");
    if (s) { auto b = own(E.wickr_crypto_engine_ecdsa_to_raw(s.get())); EXPECT(eq(b.get(), raw), "raw-changed", "raw values do not survive conversion to a signature and back"); }
    ev("raw_values");
    for (size_t n : { (size_t)1, (size_t)66, (size_t)131, (size_t)133, (size_t)264 }) { View W(r.bytes(n)); EXPECT(!own(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, W)), "accepted:raw-size", "raw values of %zu bytes are accepted", n); }
    EXPECT(!own(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, NULL)) && !own(E.wickr_crypto_engine_ecdsa_to_raw(NULL)), "accepted:nothing", "nothing converts to a signature");
    // values that do not fit, and encodings that are not signatures
    auto bad = [&](const Bytes &d, const char *what) {
        auto o = own(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mkp(d)));
        auto x = own(E.wickr_crypto_engine_ecdsa_to_raw(o.get()));
        ev("bad_raw");
        EXPECT(!x, std::string("accepted:") + what, "%s has a raw form", what);
    };
    Bytes big = r.bytes(67 + r.below(40));
    big[0] |= 1;
    for (int h = 0; h < 2; h++) {
        Bytes a = h ? big : sub(raw, 0, 66), b = h ? sub(raw, 66) : big;
        Bytes body = cat({ der_int(a), der_int(b) });
        if (der_int(a)[1] >= 128 || der_int(b)[1] >= 128) continue;
        bad(cat({ Bytes{ 0x30, 0x81, (uint8_t)body.size() }, body }), "a value that is too large");
    }
    bad(sub(want, 0, want.size() - 1), "a truncated signature");
    bad(cat({ want, r.bytes(1 + r.below(5)) }), "a signature with trailing data");
    bad(r.bytes(r.range(1, 140)), "random data");
    { Bytes d = want; d[0] = 0x31; bad(d, "another structure"); }
}
static void boxes(Rng &r)
{
    ref::Key a = some_key(r), b = some_key(r), c = ref::ec_gen(r);
    wickr_cipher_t ci = r.chance(2, 3) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
    auto K = [&](const ref::Key &k) { View V(k.der); return E.wickr_crypto_engine_ec_key_import(V, true); };
    auto A = own(wickr_ecdh_cipher_ctx_create_key(E, K(a), ci)), Bx = own(wickr_ecdh_cipher_ctx_create_key(E, K(b), ci)), C = own(wickr_ecdh_cipher_ctx_create_key(E, K(c), ci));
    auto ap = lib_key(a, false), bp = lib_key(b, false), cp = lib_key(c, false);
    REQUIRE(A && Bx && C && ap && bp, "box-refused", "an encryption context could not be made");
    const wickr_digest_t dg = DG[r.below(3)];
    const wickr_kdf_algo_t *alg = wickr_hkdf_algo_for_digest(dg);
    Bytes salt = gen_bytes(r, 200), info = gen_bytes(r, 600), pt = gen_bytes(r, 3000);
    bool hs = r.chance(1, 2), hi = !hs || r.chance(1, 2);
    auto kp = own(wickr_kdf_meta_create(*alg, hs ? mkp(salt) : NULL, hi ? mkp(info) : NULL));
    REQUIRE(kp, "box-refused", "derivation settings could not be made");
    View PT(pt);
    auto ct = own(wickr_ecdh_cipher_ctx_cipher(A.get(), PT, bp.get(), kp.get()));
    REQUIRE(ct, "box-failed", "encrypting %zu bytes to a key failed", pt.size());
    Bytes w, o;
    ref::ecdh(a.der, b.pub, w);
    Bytes key = ref::hkdf(dg.size * 8, w, hs ? salt : Bytes(), hi ? info : Bytes(), 32);
    bool good = ci.is_authenticated ? ref::gcm_dec(key, B(ct->iv), Bytes(), B(ct->cipher_text), B(ct->auth_tag), o) && o == pt : ref::ctr(key, B(ct->iv), B(ct->cipher_text)) == pt;
    EXPECT(good, "wrong-box", "what was encrypted to a key (SHA-%d, salt %d, info %d) is not what the standard gives", dg.size * 8, hs, hi);
    auto rt = own(wickr_ecdh_cipher_ctx_decipher(Bx.get(), ct.get(), ap.get(), kp.get()));
    EXPECT(eq(rt.get(), pt), "box-lost", "what was encrypted to a key is not what its owner reads");
    { auto A2 = own(wickr_ecdh_cipher_ctx_copy(A.get())); auto self = A2 ? own(wickr_ecdh_cipher_ctx_decipher(A2.get(), ct.get(), bp.get(), kp.get())) : nullptr; EXPECT(self && eq(self.get(), pt), "box-lost", "the sender (or a copy of it) does not read what it encrypted"); }
    ev("boxes");
    distinct(fmt("box %d %d %d%d %zu", ci.cipher_id, dg.size, hs, hi, pt.size()));
    auto no = [&](wickr_ecdh_cipher_ctx_t *x, const wickr_cipher_result_t *ctx, const wickr_ec_key_t *p, const wickr_kdf_meta_t *k, const char *what) { auto q = own(wickr_ecdh_cipher_ctx_decipher(x, ctx, p, k)); ev("wrong_boxes"); EXPECT(!q || (!ci.is_authenticated && !eq(q.get(), pt)), std::string("box-opened:") + what, "what was encrypted to a key opens with %s", what); };
    no(C.get(), ct.get(), ap.get(), kp.get(), "another private key");
    if (b.pub != a.pub) no(Bx.get(), ct.get(), cp.get(), kp.get(), "another sender");
    { Bytes i2 = mutate(r, hi ? info : Bytes{ 1 }); if (i2.size() <= 1024 && !i2.empty()) { auto k2 = own(wickr_kdf_meta_create(*alg, hs ? mkp(salt) : NULL, mkp(i2))); if (k2) no(Bx.get(), ct.get(), ap.get(), k2.get(), "other info"); } }
    { Bytes s2 = r.bytes(31); auto k2 = own(wickr_kdf_meta_create(*alg, mkp(s2), hi ? mkp(info) : NULL)); if (k2) no(Bx.get(), ct.get(), ap.get(), k2.get(), "another salt"); }
    for (auto &d : DG) if (d.digest_id != dg.digest_id) { auto k2 = own(wickr_kdf_meta_create(*wickr_hkdf_algo_for_digest(d), hs ? mkp(salt) : NULL, hi ? mkp(info) : NULL)); if (k2) no(Bx.get(), ct.get(), ap.get(), k2.get(), "another digest"); }
    if (ci.is_authenticated) { auto c2 = own(wickr_cipher_result_copy(ct.get())); wickr_buffer_t *f = r.pick({ c2->iv, c2->cipher_text, c2->auth_tag }); f->bytes[r.below(f->length)] ^= 1 << r.below(8); no(Bx.get(), c2.get(), ap.get(), kp.get(), "altered ciphertext"); }
    { auto X = own(wickr_ecdh_cipher_ctx_create_key(E, K(b), ci.is_authenticated ? CIPHER_AES256_CTR : CIPHER_AES256_GCM)); auto q = own(wickr_ecdh_cipher_ctx_decipher(X.get(), ct.get(), ap.get(), kp.get())); EXPECT(!q, "box-opened:other-cipher", "what was encrypted with one cipher opens as another"); }
    { auto k2 = own(wickr_kdf_meta_create(KDF_SCRYPT_2_17, mkp(r.bytes(16)), NULL)); EXPECT(!own(wickr_ecdh_cipher_ctx_cipher(A.get(), PT, bp.get(), k2.get())), "accepted:kdf", "a passphrase derivation is used for agreement"); }
    for (auto &bad : bad_points(r, b.pub)) if (r.chance(1, 6)) { auto raw = own(wickr_ec_key_create(EC_CURVE_NIST_P521, mkp(bad.pub), NULL)); EXPECT(!own(wickr_ecdh_cipher_ctx_cipher(A.get(), PT, raw.get(), kp.get())), "agreed:" + bad.what, "data is encrypted to %s", bad.what.c_str()); }
}
void prop_case(uint64_t, Rng &r)
{
    rand_seed(r.u64());
    keys(r);
    signatures(r);
    raws(r);
    if (r.chance(1, 2)) agree(r);
    if (r.chance(1, 4)) boxes(r);
    if (r.chance(1, 4)) invalid(r);
}
} // namespace v
