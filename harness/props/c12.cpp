// C12: what was exported under a passphrase comes back exactly under that passphrase and under no other.
#include "scen.hpp"
extern "C" {
#include "libscrypt.h"
}
namespace v {
const char *PROP_ID = "C12";
static World W;
static wickr_crypto_engine_t E;
static std::unordered_set<std::string> g_salts;
void prop_init() { E = mon_engine(); Rng r(g_seed * 139 + 12); W.build(r, 6, E); }
void prop_fini() {}

enum Kind { CTX, STORAGE, RECOVERY, RAW };
static const char *kname[] = { "device context", "storage keys", "recovery key", "value" };
struct Exported {
    Kind kind;
    Bytes blob;
    Actor *who;
    const wickr_kdf_algo_t *algo = &KDF_SCRYPT_2_17;
    Bytes plain;                 // the exported bytes in clear
    std::vector<Bytes> secrets;
    H<wickr_root_keys_t> rk;
};
static H<wickr_buffer_t> do_export(const Exported &x, const Bytes &pass)
{
    View p(pass);
    switch (x.kind) {
        case CTX: return own(wickr_ctx_export(x.who->ctx(), p));
        case STORAGE: return own(wickr_ctx_export_storage_keys(x.who->ctx(), p));
        case RECOVERY: return own(wickr_ctx_gen_export_recovery_key_passphrase(x.who->dev.gen.get(), p));
        default: { View v(x.plain); return own(wickr_crypto_engine_kdf_cipher(&E, *x.algo, CIPHER_AES256_GCM, v, p)); }
    }
}
// 0: refused, 1: the right thing, -1: something else
static int do_import(const Exported &x, const Bytes &blob, const Bytes &pass, Rng &r)
{
    View p(pass), b(blob);
    switch (x.kind) {
        case CTX: {
            wickr_dev_info_t *di = wickr_dev_info_copy(x.who->ctx()->dev_info);
            auto c = own(wickr_ctx_import(E, di, b, p));
            if (!c) { wickr_dev_info_destroy(&di); return 0; }
            return same(c->id_chain, x.who->ctx()->id_chain) && same(c->storage_keys, x.who->ctx()->storage_keys) && same(c->packet_header_key, x.who->ctx()->packet_header_key) && same(c->dev_info, x.who->ctx()->dev_info) ? 1 : -1;
        }
        case STORAGE: {
            auto k = own(wickr_ctx_import_storage_keys(E, b, p));
            return !k ? 0 : same(k.get(), x.who->ctx()->storage_keys) ? 1 : -1;
        }
        case RECOVERY: {
            if (r.chance(1, 4)) {      // straight into a new device
                auto rec = own(wickr_ctx_gen_result_make_recovery(x.who->dev.gen.get()));
                auto id = mk(x.who->dev.root_id);
                View bb(blob), pp(pass);
                auto g = own(wickr_ctx_gen_with_passphrase(E, x.who->ctx()->dev_info, &bb, &pp, rec.get(), id.get()));
                if (!g) return 0;
                return same(g->recovery_key, x.who->dev.gen->recovery_key) && same(g->root_keys, x.who->dev.gen->root_keys) ? 1 : -1;
            }
            auto k = own(wickr_ctx_gen_import_recovery_key_passphrase(E, b, p));
            return !k ? 0 : same(k.get(), x.who->dev.gen->recovery_key) ? 1 : -1;
        }
        default: {
            auto k = own(wickr_crypto_engine_kdf_decipher(&E, b, p));
            return !k ? 0 : eq(k.get(), x.plain) ? 1 : -1;
        }
    }
}
static Bytes gen_pass(Rng &r)
{
    switch (r.below(7)) {
        case 0: return r.bytes(r.range(1, 8));
        case 1: { Bytes b(r.range(1, 80)); for (auto &c : b) c = (uint8_t)r.range(32, 126); return b; }
        case 2: return Bytes(r.range(1, 100), (uint8_t)r.u64());
        case 3: { Bytes b = r.bytes(r.range(2, 40)); b[r.below(b.size())] = 0; return b; }
        case 4: return r.bytes(r.pick<size_t>({ 63, 64, 65, 71, 72, 73, 127, 128, 129, 1000 }));
        case 5: return B(std::string(r.pick<const char *>({ "password", "correct horse battery staple", "p\xc3\xa4ssw\xc3\xb6rd", "123456", "\xf0\x9f\x94\x91" })));
        default: return gen_bytes(r, 300);
    }
}
// scrypt keys an HMAC with the passphrase: trailing zero bytes do not count and more than 64 bytes stand for their SHA-256
static Bytes strip(Bytes b) { if (b.size() > 64) b = ref::sha(256, b); while (!b.empty() && !b.back()) b.pop_back(); return b; }
static Bytes wrong_pass(Rng &r, const Bytes &p, const char **kind)
{
    for (;;) {
        Bytes q = p;
        switch (r.below(12)) {
            case 0: case 1: q[r.below(q.size())] ^= (uint8_t)(1 << r.below(8)); *kind = "one bit"; break;
            case 2: q.resize(r.range(1, q.size())); *kind = "prefix"; break;
            case 3: q.push_back((uint8_t)r.range(1, 255)); *kind = "one byte more"; break;
            case 4: q.insert(q.begin(), (uint8_t)r.u64()); *kind = "one byte in front"; break;
            case 5: q.insert(q.end(), p.begin(), p.end()); *kind = "twice"; break;
            case 6: std::reverse(q.begin(), q.end()); *kind = "reversed"; break;
            case 7: for (auto &c : q) if (isalpha(c)) c ^= 0x20; *kind = "other case"; break;
            case 8: q = ref::sha(256, p); *kind = "its hash"; break;
            case 9: q = gen_pass(r); *kind = "unrelated"; break;
            case 10: { auto z = std::find(q.begin(), q.end(), 0); q.erase(z, q.end()); if (q.empty()) q = { 1 }; *kind = "up to its first zero byte"; break; }
            default: q.erase(q.begin()); if (q.empty()) q = { 7 }; *kind = "first byte dropped"; break;
        }
        if (strip(q) != strip(p)) return q;
    }
}
static Bytes scrypt(const Bytes &pass, const Bytes &salt, int logn)
{
    Bytes k(32);
    if (libscrypt_scrypt(pass.data(), pass.size(), salt.data(), salt.size(), 1ull << logn, 8, 1, k.data(), 32)) throw CaseAbort();
    return k;
}
static void fill(Rng &r, Exported &x)
{
    x.who = &W[r.below(W.size())];
    x.kind = (Kind)r.below(4);
    auto *c = x.who->ctx();
    switch (x.kind) {
        case CTX: {
            auto s = own(wickr_ctx_serialize(c));
            x.plain = B(s);
            x.secrets = { scalar_of(c->id_chain->node->sig_key), scalar_of(c->id_chain->root->sig_key), B(c->storage_keys->local->key_data), B(c->storage_keys->remote->key_data), B(c->packet_header_key->key_data) };
            break;
        }
        case STORAGE: {
            auto s = own(wickr_storage_keys_serialize(c->storage_keys));
            x.plain = B(s);
            x.secrets = { B(c->storage_keys->local->key_data), B(c->storage_keys->remote->key_data) };
            break;
        }
        case RECOVERY: {
            auto s = own(wickr_cipher_key_serialize(x.who->dev.gen->recovery_key));
            x.plain = B(s);
            x.secrets = { B(x.who->dev.gen->recovery_key->key_data) };
            break;
        }
        default:
            x.plain = gen_bytes(r, 3000);
            if (x.plain.size() >= 8) x.secrets = { x.plain };
            x.algo = r.pick<const wickr_kdf_algo_t *>({ &KDF_SCRYPT_2_17, &KDF_SCRYPT_2_18, &KDF_SCRYPT_2_19, &KDF_SCRYPT_2_20 });
            break;
    }
}
static int logn(const wickr_kdf_algo_t *a) { return a == &KDF_SCRYPT_2_17 ? 17 : a == &KDF_SCRYPT_2_18 ? 18 : a == &KDF_SCRYPT_2_19 ? 19 : 20; }

static void one(Rng &r, bool real)
{
    shim_kdf_fast = !real;
    Exported x;
    fill(r, x);
    if (real) x.algo = &KDF_SCRYPT_2_17;
    Bytes pass = gen_pass(r);
    auto e1 = do_export(x, pass);
    REQUIRE(e1, "export", "exporting the %s failed (passphrase of %zu bytes)", kname[x.kind], pass.size());
    x.blob = B(e1);
    ev("exports");
    // comes back
    EXPECT(do_import(x, x.blob, pass, r) == 1, "not-restored", "the %s does not come back under the passphrase it was exported with", kname[x.kind]);
    ev("imports");
    // documented form, opened independently
    REQUIRE(x.blob.size() == 1 + 16 + 1 + 12 + 16 + x.plain.size() && x.blob[0] == x.algo->kdf_id, "format", "the export of the %s has %zu bytes (kdf %u)", kname[x.kind], x.blob.size(), x.blob[0]);
    Bytes salt = sub(x.blob, 1, 16), pt;
    Bytes key = scrypt(pass, salt, logn(x.algo));
    EXPECT(ref::gcm_unbox(key, sub(x.blob, 17), pt) && pt == x.plain, "format", "the export of the %s can not be opened by an independent implementation", kname[x.kind]);
    // and made independently
    {
        Bytes s2 = r.bytes(16);
        Bytes b2 = cat({ Bytes{ (uint8_t)x.algo->kdf_id }, s2, ref::gcm_box(scrypt(pass, s2, logn(x.algo)), r.bytes(12), x.plain) });
        EXPECT(do_import(x, b2, pass, r) == 1, "interop", "an export made by an independent implementation is not restored (%s)", kname[x.kind]);
        ev("interop");
    }
    // never the same twice, nothing in clear
    EXPECT(g_salts.insert(std::string(salt.begin(), salt.end())).second, "salt-repeated", "two exports share a salt");
    auto e2 = do_export(x, pass);
    REQUIRE(e2, "export", "exporting a second time failed");
    Bytes b2 = B(e2);
    EXPECT(sub(b2, 1, 16) != salt && sub(b2, 18, 12) != sub(x.blob, 18, 12) && sub(b2, 46) != sub(x.blob, 46), "export-repeats", "two exports of the %s share a salt, nonce or ciphertext", kname[x.kind]);
    for (auto &s : x.secrets) if (s.size() >= 8) EXPECT(!contains(x.blob, s) && !contains(x.blob, sub(s, 0, 16)) && !contains(x.blob, key), "in-clear", "the export of the %s contains key material in clear", kname[x.kind]);
    if (pass.size() >= 8) EXPECT(!contains(x.blob, pass), "passphrase-in-clear", "the export contains the passphrase");
    // no other passphrase
    int nw = real ? 3 : 40;
    for (int i = 0; i < nw; i++) {
        const char *k;
        Bytes q = wrong_pass(r, pass, &k);
        int got = do_import(x, x.blob, q, r);
        EXPECT(got == 0, "wrong-passphrase", "the %s was %s under a different passphrase (%s: %s instead of %s)", kname[x.kind], got == 1 ? "restored" : "restored altered", k, hex(q, 20).c_str(), hex(pass, 20).c_str());
        ev("wrong_passphrases");
        distinct(fmt("%s:%s:%d", kname[x.kind], k, real));
    }
    { int got = do_import(x, x.blob, Bytes(), r); EXPECT(got == 0 || strip(pass).empty(), "wrong-passphrase", "the %s came back under an empty passphrase", kname[x.kind]); }
    // altered exports
    if (real) return;
    auto altered = [&](const Bytes &m, const std::string &k) {
        int got = do_import(x, m, pass, r);
        EXPECT(got == 0, "altered-export", "the %s was %s from an altered export (%s)", kname[x.kind], got == 1 ? "restored" : "restored wrongly", k.c_str());
        ev("altered_exports");
    };
    for (size_t i = 0; i < x.blob.size(); i++) {
        if (i > 60 && !r.chance(1, 8)) continue;
        Bytes m = x.blob;
        m[i] ^= (uint8_t)(1 << r.below(8));
        altered(m, fmt("byte %zu", i));
        distinct(fmt("%s:byte%zu", kname[x.kind], std::min<size_t>(i, 60)));
    }
    for (int i = 0; i < 12; i++) { std::string w; Bytes m = mutate(r, x.blob, &w); altered(m, w); }
    for (int id = 0; id < 12; id++) { if (id == x.algo->kdf_id) continue; Bytes m = x.blob; m[0] = (uint8_t)id; altered(m, fmt("kdf %d", id)); }
    for (size_t n : { (size_t)0, (size_t)1, (size_t)16, (size_t)17, (size_t)18, (size_t)29, (size_t)30, (size_t)45, (size_t)46, x.blob.size() - 1 }) if (n < x.blob.size()) altered(sub(x.blob, 0, n), fmt("first %zu bytes", n));
    altered(cat({ sub(x.blob, 0, 17), sub(b2, 17) }), "salt of one export with the ciphertext of another");
    altered(cat({ sub(b2, 0, 17), sub(x.blob, 17) }), "salt of one export with the ciphertext of another");
    { Bytes iv = sub(x.blob, 18, 12); iv.resize(16); altered(cat({ sub(x.blob, 0, 17), ref::cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), ref::ctr(key, iv, x.plain)) }), "an unauthenticated cipher"); }
    // another account's export under the same passphrase is that account's
    // combinations that must not be accepted for protecting a value
    View v(x.plain), p(pass);
    for (auto *a : { &KDF_BCRYPT_15, &KDF_HKDF_SHA256, &KDF_HKDF_SHA384, &KDF_HKDF_SHA512 }) EXPECT(!own(wickr_crypto_engine_kdf_cipher(&E, *a, CIPHER_AES256_GCM, v, p)), "weak-kdf", "a value was protected with key derivation %d", a->kdf_id);
    EXPECT(!own(wickr_crypto_engine_kdf_cipher(&E, KDF_SCRYPT_2_17, CIPHER_AES256_CTR, v, p)), "unauthenticated", "a value was protected with an unauthenticated cipher");
    ev("refused_combinations", 5);
    if (r.chance(1, 30)) sample(fmt("%s exported under a %zu byte passphrase: %zu bytes, restored; %d other passphrases and every altered export refused", kname[x.kind], pass.size(), x.blob.size(), nw));
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    bool real = k % (g_thorough ? 500 : 75) == 0;
    one(r, real);
    if (real) ev("real_scrypt");
}
} // namespace v
