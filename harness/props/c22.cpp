// C22: fingerprints equal the documented computation, on both sides and in every text form.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C22";
static wickr_crypto_engine_t E;
static std::vector<ref::Key> pool;
static std::map<Bytes, Bytes> seen;         // fingerprint -> what it is of
static std::map<Bytes, Bytes> seen_short;
void prop_init()
{
    E = plain_engine();
    Rng r(77);
    for (int i = 0; i < 40; i++) pool.push_back(ref::ec_gen(r));
    // points with leading zeros in x
    Bytes s(66, 0);
    for (int i = 1; i < 12; i++) { s[65] = (uint8_t)i; pool.push_back(ref::ec_from_scalar(s)); }
}
void prop_fini() {}
static Bytes b32(const Bytes &b)
{
    static const char *al = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
    Bytes o;
    uint32_t acc = 0;
    int n = 0;
    for (uint8_t c : b) { acc = (acc << 8) | c; n += 8; while (n >= 5) { n -= 5; o.push_back((uint8_t)al[(acc >> n) & 31]); } }
    if (n) o.push_back((uint8_t)al[(acc << (5 - n)) & 31]);
    return o;
}
static Bytes hx(const Bytes &b) { return B(hex(b, b.size())); }
static void texts(const wickr_fingerprint_t *f, const Bytes &want)
{
    struct T { const char *n; wickr_buffer_t *(*fn)(const wickr_fingerprint_t *, wickr_fingerprint_output); Bytes w; };
    for (auto &t : { T{ "base32", wickr_fingerprint_get_b32, b32(want) }, T{ "hexadecimal", wickr_fingerprint_get_hex, hx(want) } }) {
        auto l = own(t.fn(f, FINGERPRINT_OUTPUT_LONG)), s = own(t.fn(f, FINGERPRINT_OUTPUT_SHORT));
        EXPECT(eq(l.get(), t.w), "wrong-text", "the long %s form of a fingerprint of %zu bytes is '%.200s'", t.n, want.size(), l ? (const char *)cat({ B(l), Bytes(1, 0) }).data() : "(null)");
        if (t.w.size() >= 2) EXPECT(eq(s.get(), sub(t.w, 0, t.w.size() / 2)), "wrong-text", "the short %s form of a fingerprint is '%.200s'", t.n, s ? (const char *)cat({ B(s), Bytes(1, 0) }).data() : "(null)");
        ev("texts", 2);
    }
    EXPECT(eq(f->data, want), "input-changed", "reading a fingerprint changed it");
}
struct Id { ref::Key k; Bytes id; bool compressed; };
static Id gen_id(Rng &r)
{
    Id i;
    i.k = r.pick(pool);
    if (r.chance(1, 3)) i.k = ref::ec_gen(r);
    i.id = r.chance(1, 3) ? r.bytes(32) : gen_bytes(r, 200);
    i.compressed = false;
    return i;
}
static Bytes ref_fp(const Id &i) { Bytes p = i.k.pub; p.resize(134, 0); return ref::sha(512, cat({ i.id, p })); }
static H<wickr_ec_key_t> key_of(Rng &r, const Id &i)
{
    bool priv = r.chance(1, 3) && !i.k.der.empty();
    View V(priv ? i.k.der : i.k.pub);
    return own(E.wickr_crypto_engine_ec_key_import(V, priv));
}
static void note(const Bytes &fp, const Bytes &of)
{
    auto a = seen.emplace(fp, of);
    EXPECT(a.first->second == of, "collision", "two different identities have one fingerprint");
    auto b = seen_short.emplace(sub(fp, 0, 32), of);
    EXPECT(b.first->second == of, "collision", "two different identities have one short fingerprint");
}
static H<wickr_fingerprint_t> one(Rng &r, const Id &i)
{
    auto k = key_of(r, i);
    REQUIRE(k, "import-refused", "a key is refused");
    View D(i.id);
    auto f = own(wickr_fingerprint_gen(E, k.get(), D, WICKR_FINGERPRINT_TYPE_SHA512));
    REQUIRE(f, "fingerprint-failed", "no fingerprint of an identifier of %zu bytes", i.id.size());
    Bytes want = ref_fp(i);
    EXPECT(eq(f->data, want) && f->type == WICKR_FINGERPRINT_TYPE_SHA512, "wrong-fingerprint", "the fingerprint of an identifier of %zu bytes and a key of %zu is not SHA-512(identifier, key)", i.id.size(), i.k.pub.size());
    note(want, cat({ Bytes{ (uint8_t)(i.id.size() & 255), (uint8_t)(i.id.size() >> 8) }, i.id, i.k.pub }));
    ev("fingerprints");
    distinct(fmt("fp %zu %02x%02x", i.id.size(), i.k.pub[2], i.k.pub[3]));
    return f;
}
static H<wickr_identity_t> identity(Rng &r, const Id &i, wickr_identity_type t)
{
    auto k = key_of(r, i);
    wickr_ecdsa_result_t *sig = NULL;
    if (r.chance(1, 2)) sig = wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mkp(r.bytes(138)));
    return own(wickr_identity_create(t, mkp(i.id), k.release(), sig));
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    Id a = gen_id(r), b = gen_id(r);
    // related pairs: same identifier, same key, identifiers that differ in one place or continue into each other
    switch (r.below(7)) {
        case 0: b.id = a.id; break;
        case 1: b.k = a.k; break;
        case 2: b = a; b.id = mutate(r, a.id); break;
        case 3: b = a; b.id.push_back(0); break;
        case 4: { EC_KEY *e = ref::ec_pub(a.k.pub); uint8_t o[67]; EC_POINT_point2oct(EC_KEY_get0_group(e), EC_KEY_get0_public_key(e), POINT_CONVERSION_COMPRESSED, o, 67, NULL); EC_KEY_free(e); b = a; b.k.pub = cat({ Bytes{ a.k.pub[0] }, Bytes(o, o + 67) }); b.k.der.clear(); } break;
        case 5: { b = a; b.k.pub[68 + 65] = a.k.pub[133]; Bytes n = a.k.pub; BIGNUM *y = BN_bin2bn(&n[68], 66, NULL), *p = NULL; BN_hex2bn(&p, ("1FF" + std::string(128, 'F')).c_str()); BN_sub(y, p, y); BN_bn2binpad(y, &n[68], 66); BN_free(y); BN_free(p); b.k.pub = n; b.k.der.clear(); } break;
        default: break;
    }
    if (b.id.empty()) b.id = { 1 };
    if (a.id.size() > 127 || b.id.size() > 127) { one(r, a); one(r, b); if (a.id.size() > 127) a.id.resize(127); if (b.id.size() > 127) b.id.resize(127); }
    auto fa = one(r, a), fb = one(r, b);
    auto fa2 = one(r, a);
    EXPECT(same(fa.get(), fa2.get()), "not-repeatable", "two fingerprints of one identity differ");
    Bytes ra = ref_fp(a), rb = ref_fp(b);
    bool differ = a.id != b.id || a.k.pub != b.k.pub;
    EXPECT((B(fa->data) != B(fb->data)) == differ, "collision", "fingerprints agree although the identities do not (or the other way round)");
    texts(fa.get(), ra);
    // through identities, whatever their type, signature and private keys
    auto ia = identity(r, a, r.chance(1, 2) ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE), ib = identity(r, b, r.chance(1, 2) ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE);
    REQUIRE(ia && ib, "identity-refused", "an identity could not be made");
    auto ga = own(wickr_identity_get_fingerprint(ia.get(), E)), gb = own(wickr_identity_get_fingerprint(ib.get(), E));
    EXPECT(ga && gb && eq(ga->data, ra) && eq(gb->data, rb), "wrong-fingerprint", "the fingerprint of an identity is not that of its identifier and key");
    {
        auto s = own(wickr_identity_serialize(ia.get()));
        auto d = s ? own(wickr_identity_create_from_buffer(s.get(), &E)) : nullptr;
        if (d) { auto gd = own(wickr_identity_get_fingerprint(d.get(), E)); EXPECT(gd && eq(gd->data, ra), "wrong-fingerprint", "the fingerprint of a published identity differs"); ev("published"); }
    }
    // two parties
    auto ab = own(wickr_fingerprint_gen_bilateral(E, fa.get(), fb.get(), WICKR_FINGERPRINT_TYPE_SHA512)), ba = own(wickr_fingerprint_gen_bilateral(E, fb.get(), fa.get(), WICKR_FINGERPRINT_TYPE_SHA512));
    auto iab = own(wickr_identity_get_bilateral_fingerprint(ia.get(), ib.get(), E)), iba = own(wickr_identity_get_bilateral_fingerprint(ib.get(), ia.get(), E));
    if (differ) {
        Bytes want = ref::sha(512, ra > rb ? cat({ ra, rb }) : cat({ rb, ra }));
        EXPECT(ab && ba && eq(ab->data, want) && eq(ba->data, want), "wrong-bilateral", "the fingerprint of two parties is not the documented value on both sides");
        EXPECT(iab && iba && eq(iab->data, want) && eq(iba->data, want), "wrong-bilateral", "the fingerprint of two identities is not the documented value on both sides");
        EXPECT(want != ra && want != rb, "collision", "a two-party fingerprint is one party's");
        note(want, ra > rb ? cat({ B(std::string("two")), ra, rb }) : cat({ B(std::string("two")), rb, ra }));
        if (ab) texts(ab.get(), want);
        ev("bilateral");
        distinct(fmt("two %d %d %zu", a.id == b.id, a.k.pub == b.k.pub, ra > rb ? 1ul : 0ul));
    } else EXPECT(!!ab == !!ba && (!ab || same(ab.get(), ba.get())), "wrong-bilateral", "the fingerprint of one identity with itself depends on the side");
    EXPECT(eq(fa->data, ra) && eq(fb->data, rb), "input-changed", "combining fingerprints changed one");
    auto ca = own(wickr_fingerprint_copy(fa.get()));
    EXPECT(ca && same(ca.get(), fa.get()), "copy-differs", "a copy of a fingerprint differs");
    // fingerprints whose first bytes agree, and of any content
    {
        Bytes x = r.bytes(64), y = x;
        size_t at = r.below(64);
        do y[at] = (uint8_t)r.u64(); while (y[at] == x[at]);
        for (size_t i = at + 1; i < 64; i++) y[i] = (uint8_t)r.u64();
        auto fx = own(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mkp(x))), fy = own(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mkp(y)));
        auto xy = own(wickr_fingerprint_gen_bilateral(E, fx.get(), fy.get(), WICKR_FINGERPRINT_TYPE_SHA512)), yx = own(wickr_fingerprint_gen_bilateral(E, fy.get(), fx.get(), WICKR_FINGERPRINT_TYPE_SHA512));
        Bytes want = ref::sha(512, x > y ? cat({ x, y }) : cat({ y, x }));
        EXPECT(xy && yx && eq(xy->data, want) && eq(yx->data, want), "wrong-bilateral", "the fingerprint of two parties that first differ at byte %zu is not the documented value on both sides", at);
        ev("constructed");
        distinct(fmt("differ at %zu %d", at, x > y));
        Bytes odd = gen_bytes(r, 300);
        auto fo = own(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mkp(odd)));
        texts(fo.get(), odd);
        if (odd.size() != 64) EXPECT(!own(wickr_fingerprint_gen_bilateral(E, fx.get(), fo.get(), WICKR_FINGERPRINT_TYPE_SHA512)) && !own(wickr_fingerprint_gen_bilateral(E, fo.get(), fx.get(), WICKR_FINGERPRINT_TYPE_SHA512)), "accepted:lengths", "fingerprints of different lengths are combined");
    }
    EXPECT(!own(wickr_fingerprint_gen_bilateral(E, fa.get(), NULL, WICKR_FINGERPRINT_TYPE_SHA512)) && !own(wickr_fingerprint_gen_bilateral(E, NULL, fa.get(), WICKR_FINGERPRINT_TYPE_SHA512)), "accepted:nothing", "a fingerprint with nobody");
    EXPECT(!own(wickr_identity_get_bilateral_fingerprint(ia.get(), NULL, E)) && !own(wickr_identity_get_fingerprint(NULL, E)), "accepted:nothing", "a fingerprint of nobody");
    { auto kk = key_of(r, a); EXPECT(!own(wickr_fingerprint_gen(E, kk.get(), NULL, WICKR_FINGERPRINT_TYPE_SHA512)), "accepted:nothing", "a fingerprint without an identifier"); }
    EXPECT(!own(wickr_fingerprint_get_b32(NULL, FINGERPRINT_OUTPUT_LONG)) && !own(wickr_fingerprint_get_hex(NULL, FINGERPRINT_OUTPUT_SHORT)), "accepted:nothing", "text of no fingerprint");
}
} // namespace v
