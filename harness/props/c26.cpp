// C26: what the library releases carries no keys. Every block is scanned at the moment it is freed.
#include "ops.hpp"
#include "taint.hpp"
#include "memhook.hpp"
#include <execinfo.h>
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
namespace v {
const char *PROP_ID = "C26";
static Taint T, BASE;
static bool g_watching = false;
static std::string g_doing;
static uint64_t g_blocks, g_bytes;
static int g_canary = 0;            // expected findings of the self-test

// ------------------------------------------------------------------ the watch
static std::string stack(void *const *pc, int n)
{
    std::string s;
    int k = 0;
    char prev[300] = "";
    for (int i = 2; i < n && k < 3; i++) {
        char b[300] = "";
        __sanitizer_symbolize_pc((char *)pc[i] - 1, "%f", b, sizeof b);
        if (strncmp(b, "wickr_", 6) && strncmp(b, "__wickr", 7) && strncmp(b, "openssl_", 8) && strncmp(b, "__openssl", 9) && strncmp(b, "__", 2)) continue;
        if (!strcmp(b, "wickr_free") || !strcmp(b, "wickr_buffer_destroy") || !strncmp(b, "__interceptor", 13) || !strncmp(b, "__sanitizer", 11) || !strncmp(b, "__asan", 6) || !strncmp(b, "__libc", 6)) continue;
        if (strstr(b, "__proto__") || strstr(b, "_proto_zero_")) continue;
        if (!strcmp(b, prev)) continue;
        strcpy(prev, b);
        s += (k++ ? "<" : "") + std::string(b);
    }
    return s.empty() ? "?" : s;
}
static void report(const char *what, size_t n, size_t at, void *const *pc, int k)
{
    std::string st = stack(pc, k);
    viol("released:" + st, fmt("%s is still in a block of %zu bytes (at %zu) when %s releases it (%s)", what, n, at, st.c_str(), g_doing.c_str()));
}
struct Past;
static void hold(const uint8_t *p, size_t n);
static void on_free(const volatile void *p, size_t n)
{
    if (!g_watching) return;
    g_blocks++; g_bytes += n;
    if (n < Taint::W) return;
    size_t at = 0;
    const char *what = T.scan((const uint8_t *)p, n, &at);
    if (!what) { if (n <= 4096) hold((const uint8_t *)p, n); return; }
    InHarness ih;
    if (g_canary > 0) { g_canary--; return; }
    void *pc[40];
    report(what, n, at, pc, backtrace(pc, 40));
}
// blocks released since the last provider call ended are held against what that call turns out to have made
struct Past { Bytes b; void *pc[24]; int n; };
static std::vector<Past> PAST;
static void hold(const uint8_t *p, size_t n)
{
    if (PAST.size() >= 400) return;
    InHarness ih;
    PAST.emplace_back();
    Past &q = PAST.back();
    q.b.assign(p, p + n);
    q.n = backtrace(q.pc, 24);
}
static void past()
{
    InHarness ih;
    for (auto &q : PAST) {
        size_t at = 0;
        const char *what = T.scan(q.b, &at);
        if (what) report(what, q.b.size(), at, q.pc, q.n);
        ev("blocks_held");
    }
    PAST.clear();
}
struct Watch { bool old; Watch() : old(g_watching) { g_watching = true; } ~Watch() { g_watching = old; } };

// ------------------------------------------------------------------ the secrets
static void sec(const wickr_ec_key_t *k, const char *n) { if (k && k->pri_data) T.add(scalar_of(k), n); }
static void sec(const wickr_cipher_key_t *k, const char *n) { if (k) T.add(B(k->key_data), n); }
static bool g_random_secret = false;
static void learn(const CallRec &c)
{
    if (!c.ok) return;
    switch (c.op) {
        case OP_KEYRAND: T.add(c.out, "a random key"); break;
        case OP_ECRAND: T.add(der_scalar(c.out), "a private key"); break;
        case OP_ECDH: T.add(c.out, "a shared secret"); break;
        case OP_KDFGEN: case OP_KDFMETA:
            if (c.alg <= KDF_ID_BCRYPT_15) { T.add(c.in, "a passphrase"); T.add(c.out, "a key made from a passphrase"); }
            else if (T.scan(c.in)) T.add(c.out, "a derived key");
            break;
        case OP_HMAC: if (T.scan(c.key) || T.scan(c.in)) T.add(c.out, "a derived key"); break;
        case OP_DIGEST: if (T.scan(c.in) || T.scan(c.aad)) T.add(c.out, "a derived key"); break;
        case OP_RANDOM: if (g_random_secret && c.out.size() == 32) T.add(c.out, "a random secret"); break;
        default: return;
    }
}
static void learn_call(const CallRec &c)
{
    size_t n = T.secs.size();
    learn(c);
    if (T.secs.size() != n) past(); else PAST.clear();
}
static void secrets_of_the_case(bool random_secret)
{
    T = BASE;
    PAST.clear();
    g_random_secret = random_secret;
    mon().on_call = learn_call;
}
static void clear_faults() { mon().fail_at = -1; mon().fail_persistent = false; mon().count = 0; mon().failed = 0; mon().fail_op = OP_COUNT; memset(mon().per_op, 0, sizeof mon().per_op); rand_state().fail_after = -1; rand_state().calls = 0; shim_kdf_fail = 0; shim_kdf_failed = 0; mon().budget = 0; mon().over_budget = false; }
static void account()
{
    evals(g_blocks);
    ev("blocks_scanned", g_blocks); ev("bytes_scanned", g_bytes);
    g_blocks = g_bytes = 0;
}

// ------------------------------------------------------------------ operations that make no provider calls
static std::vector<Mk> PLAIN;
template <class T> static Oc simple(const char *name, std::function<T *()> f) { return ret<T>(name, f, [](T *) { return std::string(); }, [] { return std::string(); }); }
// parse a serialized secret object as it is, or damaged
static std::shared_ptr<View> maybe_damaged(Rng &r, const Bytes &b) { if (r.chance(1, 3)) return vw(b); Bytes m = mutate(r, b); if (m.empty()) m = b; return vw(m); }
static void make_plain()
{
#define PL(name, TYPE, setup, expr) PLAIN.push_back([](Rng &r) { (void)r; auto *a = &any(r); (void)a; auto *g = W[0].dev.gen.get(); (void)g; setup; return simple<TYPE>(name, [=]() -> TYPE * { return expr; }); })
    PL("cipher_key_copy", wickr_cipher_key_t, , wickr_cipher_key_copy(g->recovery_key));
    PL("cipher_key_serialize", wickr_buffer_t, , wickr_cipher_key_serialize(g->recovery_key));
    PL("cipher_key_from_buffer", wickr_cipher_key_t, auto b = maybe_damaged(r, B(own(wickr_cipher_key_serialize(g->recovery_key)))), wickr_cipher_key_from_buffer(&b->b));
    PL("ec_key_copy", wickr_ec_key_t, , wickr_ec_key_copy(a->eph->ec_key));
    PL("ephemeral_copy", wickr_ephemeral_keypair_t, , wickr_ephemeral_keypair_copy(a->eph.get()));
    PL("identity_copy", wickr_identity_t, , wickr_identity_copy(a->dev.chain()->node));
    PL("chain_copy", wickr_identity_chain_t, , wickr_identity_chain_copy(a->dev.chain()));
    PL("chain_serialize", wickr_buffer_t, , wickr_identity_chain_serialize(a->dev.chain()));
    PL("chain_serialize_private", wickr_buffer_t, , wickr_identity_chain_serialize_private(a->dev.chain()));
    PL("identity_serialize", wickr_buffer_t, , wickr_identity_serialize(a->dev.chain()->root));
    PL("ephemeral_serialize", wickr_buffer_t, , wickr_ephemeral_keypair_serialize(a->eph.get()));
    PL("chain_from_buffer", wickr_identity_chain_t, auto b = maybe_damaged(r, B(own(wickr_identity_chain_serialize_private(a->dev.chain())))), wickr_identity_chain_create_from_buffer(&b->b, &E));
    PL("root_keys_copy", wickr_root_keys_t, , wickr_root_keys_copy(g->root_keys));
    PL("root_keys_serialize", wickr_buffer_t, , wickr_root_keys_serialize(g->root_keys));
    PL("root_keys_from_buffer", wickr_root_keys_t, auto b = maybe_damaged(r, B(own(wickr_root_keys_serialize(g->root_keys)))), wickr_root_keys_create_from_buffer(&E, &b->b));
    PL("storage_keys_copy", wickr_storage_keys_t, , wickr_storage_keys_copy(a->ctx()->storage_keys));
    PL("storage_keys_serialize", wickr_buffer_t, , wickr_storage_keys_serialize(a->ctx()->storage_keys));
    PL("storage_keys_from_buffer", wickr_storage_keys_t, auto b = maybe_damaged(r, B(own(wickr_storage_keys_serialize(a->ctx()->storage_keys)))), wickr_storage_keys_create_from_buffer(&b->b));
    PL("ctx_copy", wickr_ctx_t, , wickr_ctx_copy(a->ctx()));
    PL("ctx_serialize", wickr_buffer_t, , wickr_ctx_serialize(a->ctx()));
    PL("gen_result_copy", wickr_ctx_gen_result_t, , wickr_ctx_gen_result_copy(a->dev.gen.get()));
    // a context from its bytes, whole or damaged; device information is taken on success
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); auto b = maybe_damaged(r, B(own(wickr_ctx_serialize(a->ctx()))));
        return simple<wickr_ctx_t>("ctx_from_buffer", [=] { return taking<wickr_ctx_t, wickr_dev_info_t>(wickr_dev_info_copy(a->ctx()->dev_info), [=](wickr_dev_info_t *d) { return wickr_ctx_create_from_buffer(E, d, &b->b); }); }); });
    // exports opened with the wrong passphrase or after damage
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); Bytes p = r.bytes(10), q = r.chance(1, 2) ? p : r.bytes(10); auto b = maybe_damaged(r, B(own(wickr_ctx_export(a->ctx(), View(p))))); auto v_ = vw(q);
        return simple<wickr_ctx_t>("bad_ctx_import", [=] { return taking<wickr_ctx_t, wickr_dev_info_t>(wickr_dev_info_copy(a->ctx()->dev_info), [=](wickr_dev_info_t *d) { return wickr_ctx_import(E, d, &b->b, &v_->b); }); }); });
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); Bytes p = r.bytes(10), q = r.chance(1, 2) ? p : r.bytes(10); auto b = maybe_damaged(r, B(own(wickr_ctx_export_storage_keys(a->ctx(), View(p))))); auto v_ = vw(q);
        return simple<wickr_storage_keys_t>("bad_storage_import", [=] { return wickr_ctx_import_storage_keys(E, &b->b, &v_->b); }); });
    PLAIN.push_back([](Rng &r) { auto *g = W[0].dev.gen.get(); Bytes p = r.bytes(10), q = r.chance(1, 2) ? p : r.bytes(10); auto b = maybe_damaged(r, B(own(wickr_ctx_gen_export_recovery_key_passphrase(g, View(p))))); auto v_ = vw(q);
        return simple<wickr_cipher_key_t>("bad_recovery_key_import", [=] { return wickr_ctx_gen_import_recovery_key_passphrase(E, &b->b, &v_->b); }); });
    PLAIN.push_back([](Rng &r) { auto *g = W[0].dev.gen.get(); auto b = maybe_damaged(r, B(own(wickr_ctx_gen_result_make_recovery(g)))); bool wrong = r.chance(1, 2);
        return simple<wickr_root_keys_t>("bad_recovery_import", [=] { return wickr_ctx_gen_import_recovery(E, &b->b, wrong ? W[0].ctx()->storage_keys->local : g->recovery_key); }); });
    // recovery data which opens but holds something else
    PLAIN.push_back([](Rng &r) { auto *g = W[0].dev.gen.get(); Bytes m = mutate(r, B(own(wickr_root_keys_serialize(g->root_keys)))); if (m.empty()) m.push_back(1); auto x = own(E.wickr_crypto_engine_cipher_encrypt(View(m), NULL, g->recovery_key, NULL)); auto b = std::make_shared<H<wickr_buffer_t>>(own(wickr_cipher_result_serialize(x.get()))); auto id = vw(W[0].dev.root_id);
        return simple<wickr_ctx_gen_result_t>("odd_recovery", [=] { return wickr_ctx_gen_with_recovery(E, W[0].ctx()->dev_info, b->get(), g->recovery_key, &id->b); }); });
    // an export which opens but holds something else
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); Bytes p = r.bytes(10); Bytes m = mutate(r, B(own(r.chance(1, 2) ? wickr_ctx_serialize(a->ctx()) : wickr_storage_keys_serialize(a->ctx()->storage_keys)))); if (m.empty()) m.push_back(1); auto b = std::make_shared<H<wickr_buffer_t>>(own(wickr_crypto_engine_kdf_cipher(&E, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, View(m), View(p)))); auto v_ = vw(p); bool st = r.chance(1, 2);
        if (st) return simple<wickr_storage_keys_t>("odd_storage_export", [=] { return wickr_ctx_import_storage_keys(E, b->get(), &v_->b); });
        return simple<wickr_ctx_t>("odd_export", [=] { return taking<wickr_ctx_t, wickr_dev_info_t>(wickr_dev_info_copy(a->ctx()->dev_info), [=](wickr_dev_info_t *d) { return wickr_ctx_import(E, d, b->get(), &v_->b); }); }); });
    // stream keys
    PL("stream_key_copy", wickr_stream_key_t, auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)), wickr_stream_key_copy(k->get()));
    PL("stream_key_serialize", wickr_buffer_t, auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)), wickr_stream_key_serialize(k->get()));
    PL("stream_key_from_buffer", wickr_stream_key_t, auto k = sh(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)); auto b = maybe_damaged(r, B(own(wickr_stream_key_serialize(k->get())))), wickr_stream_key_create_from_buffer(&b->b));
    PL("stream_ctx_copy", wickr_stream_ctx_t, auto k = sh(wickr_stream_ctx_create(E, wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3), STREAM_DIRECTION_ENCODE)), wickr_stream_ctx_copy(k->get()));
    PL("transport_root_key_copy", wickr_transport_root_key_t, auto k = sh(wickr_transport_root_key_create_random(&E, CIPHER_AES256_GCM, 5, 6)), wickr_transport_root_key_copy(k->get()));
    PL("ecdh_cipher_ctx_copy", wickr_ecdh_cipher_ctx_t, auto k = sh(wickr_ecdh_cipher_ctx_create(E, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)), wickr_ecdh_cipher_ctx_copy(k->get()));
    // key derivation, by its public functions, every algorithm
    PLAIN.push_back([](Rng &r) { auto p = vw(r.bytes(r.range(8, 100))); auto al = r.pick<wickr_kdf_algo_t>({ KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_BCRYPT_15 });
        return simple<wickr_kdf_result_t>("kdf", [=] { auto x = wickr_perform_kdf(al, &p->b); if (x) { InHarness ih; T.add(B(x->hash), "a key made from a passphrase"); } return x; }); });
    PLAIN.push_back([](Rng &r) { auto p = vw(r.bytes(r.range(8, 100))); auto al = r.pick<wickr_kdf_algo_t>({ KDF_SCRYPT_2_17, KDF_SCRYPT_2_20, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512, KDF_HKDF_SHA512_EXPAND });
        bool hk = al.algo_id == KDF_HMAC_SHA2;
        Bytes salt = hk ? r.bytes(r.range(1, 40)) : al.algo_id == KDF_BCRYPT ? Bytes() : r.bytes(al.salt_size);
        S<wickr_kdf_meta_t> m;
        if (al.algo_id == KDF_BCRYPT) { auto x = sh(wickr_perform_kdf(al, View(r.bytes(9)))); m = sh(wickr_kdf_meta_copy((*x)->meta)); }
        else m = sh(wickr_kdf_meta_create(al, mkp(salt), hk ? mkp(r.bytes(12)) : NULL));
        return simple<wickr_kdf_result_t>("kdf_meta", [=] { { InHarness ih; T.add(B(&p->b), hk ? "keying material" : "a passphrase"); } auto x = wickr_perform_kdf_meta(m->get(), &p->b); if (x) { InHarness ih; T.add(B(x->hash), "a derived key"); } return x; }); });
    PLAIN.push_back([](Rng &r) { auto p = vw(r.bytes(12)); auto x = sh(wickr_perform_kdf(KDF_SCRYPT_2_17, &p->b));
        return simple<wickr_kdf_result_t>("kdf_result_copy", [=] { { InHarness ih; T.add(B((*x)->hash), "a key made from a passphrase"); } return wickr_kdf_result_copy(x->get()); }); });
    // changing keys in place
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); auto n = sh(wickr_node_copy(a->node.get())); wickr_node_rotate_keypair(n->get(), a->eph.get(), true); auto k = sh(wickr_ctx_ephemeral_keypair_gen(a->ctx(), 4)); bool cp = r.chance(1, 2);
        Oc o; o.name = "node_rotate_keypair";
        o.call = [=] { bool ok = wickr_node_rotate_keypair(n->get(), k->get(), cp); if (ok && !cp) k->release(); return ok; };
        return o; });
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); auto k = sh(wickr_ephemeral_keypair_copy(a->eph.get()));
        Oc o; o.name = "ephemeral_make_public";
        o.call = [=] { wickr_ephemeral_keypair_make_public(k->get()); return true; };
        return o; });
    // arrays of nodes with their private keys
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); auto n = own(wickr_node_copy(a->node.get())); wickr_node_rotate_keypair(n.get(), a->eph.get(), true); auto arr = std::make_shared<NodeArr>(node_array({ n.release() }));
        Oc o; o.name = "node_array_copy";
        o.call = [=] { NodeArr c(wickr_node_array_copy(arr->get())); return c != nullptr; };
        return o; });
    // private keys through the provider's own import
    PLAIN.push_back([](Rng &r) { auto *a = &any(r); bool pri = r.chance(3, 4); Bytes d = B(a->eph->ec_key->pri_data); auto b = pri ? maybe_damaged(r, d) : vw(B(a->eph->ec_key->pub_data));
        return simple<wickr_ec_key_t>("ec_import", [=] { return E.wickr_crypto_engine_ec_key_import(&b->b, pri); }); });
    PLAIN.push_back([](Rng &r) { auto *a = &any(r), *z = &any(r); bool odd = r.chance(1, 3); auto k = sh(wickr_ec_key_copy(a->eph->ec_key)); if (odd) { Bytes m = mutate(r, B((*k)->pri_data)); if (!m.empty()) { wickr_buffer_destroy_zero(&(*k)->pri_data); (*k)->pri_data = mkp(m); } }
        return simple<wickr_buffer_t>("shared_secret", [=] { return E.wickr_crypto_engine_gen_shared_secret(k->get(), z->node->ephemeral_keypair->ec_key); }); });
    // files and their keys
    PLAIN.push_back([](Rng &r) { auto k = sh(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); Bytes d = r.bytes(r.range(1, 9000)); (void)k;
        return simple<wickr_cipher_result_t>("encrypt", [=] { return E.wickr_crypto_engine_cipher_encrypt(View(d), NULL, k->get(), NULL); }); });
}

// ------------------------------------------------------------------ driver
static void one(const Mk &mkop, uint64_t seed, int64_t at, int kind)
{
    Rng r(seed);
    bool ok;
    const char *name;
    Op op = OP_COUNT;
    {
        secrets_of_the_case(true);       // (inputs made here may hold secrets too)
        clear_faults();
        Oc o = mkop(r);
        name = o.name;
        bool stream = strstr(name, "stream") || strstr(name, "transport") || strstr(name, "handshake");
        g_random_secret = stream;
        clear_faults();
        if (kind == 2) rand_state().fail_after = at; else if (kind == 3) shim_kdf_fail = 1; else if (at >= 0) { mon().fail_at = at; mon().fail_persistent = kind == 1; }
        g_doing = at < 0 ? fmt("%s", name) : fmt("%s with provider call %" PRId64 " failing", name, at);
        { Watch w; ok = o.call(); }
        op = mon().fail_op;
        clear_faults();
        g_doing = fmt("destroying what %s used and made%s", name, at < 0 ? "" : " after a failure");
        { Watch w; o = Oc(); }
    }
    mon().on_call = nullptr;
    ev(at < 0 ? "operations" : "failing_operations");
    if (at < 0) { ev(fmt("op_%s", name).c_str()); ev(ok ? "succeeding" : "refused"); }
    distinct(fmt("%s %" PRId64 " %d %d %d", name, at, kind, (int)op, ok));
    account();
}
static void with_faults(const Mk &mkop, uint64_t seed, Rng &r)
{
    uint64_t n, rn, kd;
    {
        Rng q(seed);
        Oc o = mkop(q);
        clear_faults();
        o.call();
        n = mon().count; rn = rand_state().calls; kd = mon().per_op[OP_KDFGEN] + mon().per_op[OP_KDFMETA];
        clear_faults();
    }
    one(mkop, seed, -1, 0);
    for (uint64_t i = 0; i < n; i++) one(mkop, seed, (int64_t)i, r.chance(1, 3));
    for (uint64_t i = 0; i < rn; i++) if (rn <= 6 || r.chance(6, (unsigned)rn)) one(mkop, seed, (int64_t)i, 2);
    if (kd) one(mkop, seed, 0, 3);
}
static void conversation(Rng &r)
{
    auto &A = any(r), &Z = any(r);
    secrets_of_the_case(true);
    // (callbacks receive data, not keys; the endpoints' own copies are the harness's)
    auto a = make_ep("a", E, A.dev.chain(), r.chance(1, 2) ? Z.pub.get() : NULL, (uint32_t)r.range(1, 3)), z = make_ep("z", E, Z.dev.chain(), r.chance(1, 2) ? A.pub.get() : NULL, (uint32_t)r.range(1, 3));
    if (r.chance(1, 4)) a->policy = Endpoint::REFUSE;
    if (r.chance(1, 4)) z->policy = Endpoint::DEFER;
    clear_faults();
    bool fault = r.chance(1, 2);
    if (fault) { mon().fail_at = (int64_t)r.below(60); mon().fail_persistent = r.chance(1, 2); }
    bool damage = r.chance(1, 3);
    mon().budget = 4000;            // (a damaged sequence number asks for any number of evolutions: C11)
    uint64_t budget = 40;
    g_doing = fmt("a transport conversation%s%s", fault ? " with a failing provider call" : "", damage ? " with damaged packets" : "");
    {
        Watch w;
        a->start();
        int msgs = (int)r.range(0, 8);
        for (;;) {
            while ((a->has_tx() || z->has_tx()) && budget--) {
                Endpoint &x = a->has_tx() ? *a : *z, &y = &x == a.get() ? *z : *a;
                Bytes p; { InHarness ih; p = x.take(); if (damage && r.chance(1, 6)) p = tame(mutate(r, p)); }
                y.feed(p);
                InHarness ih; p = Bytes();
            }
            if (!msgs--) break;
            Bytes d; { InHarness ih; d = r.bytes(r.range(1, 50)); }
            (r.chance(1, 2) ? *a : *z).send(d);
            InHarness ih; d = Bytes();
            budget = 40;
        }
        if (z->pending) z->decide(r.chance(1, 2));
        for (int i = 0; i < 6 && (a->has_tx() || z->has_tx()); i++) { Endpoint &x = a->has_tx() ? *a : *z, &y = &x == a.get() ? *z : *a; Bytes p = x.take(); y.feed(p); }
        ev(a->status() == TRANSPORT_STATUS_ACTIVE ? "conversations" : "broken_conversations");
        distinct(fmt("conversation %d %d %d %d", a->status(), z->status(), a->error(), z->error()));
        auto c = own(wickr_transport_ctx_copy(a->t.get()));
        c.reset();
        clear_faults();
        g_doing = "destroying transports";
        a->t.reset();
        z->t.reset();
    }
    mon().on_call = nullptr;
    account();
}
void prop_init()
{
    E = mon_engine();
    REQUIRE(memhook_install(), "monitor", "the free hook can not be installed");
    g_free_watch = on_free;
    Rng r(g_seed * 31 + 26);
    W.build(r, 7, E);
    make_ops();
    make_plain();
    for (auto &x : W.a) {
        auto &d = x.dev;
        sec(d.chain()->node->sig_key, "a device's private signing key");
        sec(d.chain()->root->sig_key, "an account's private signing key");
        sec(d.ctx()->storage_keys->local, "a local storage key");
        sec(d.ctx()->storage_keys->remote, "a remote storage key");
        if (d.gen->root_keys) { sec(d.gen->root_keys->node_storage_root, "a storage root key"); sec(d.gen->root_keys->remote_storage_root, "a storage root key"); sec(d.gen->root_keys->node_signature_root, "an account's private signing key"); }
        if (d.gen->recovery_key) sec(d.gen->recovery_key, "a recovery key");
        sec(x.eph->ec_key, "a private ephemeral key");
    }
    BASE = T;
    // the watch sees a secret that is released, and nothing where it was wiped
    Watch w;
    for (int zero = 0; zero < 2; zero++) {
        auto *b = wickr_buffer_copy(W[0].dev.gen->recovery_key->key_data);
        g_canary = 1;
        if (zero) wickr_buffer_destroy_zero(&b); else wickr_buffer_destroy(&b);
        EXPECT(g_canary == zero, "monitor", "the watch is blind");
        if (g_canary == zero) ev("canaries");
        g_canary = 0;
    }
}
void prop_case(uint64_t k, Rng &r)
{
    size_t n = OPS.size() + 2 * PLAIN.size() + 8;
    size_t i = (size_t)(k % n);
    if (i < OPS.size()) with_faults(OPS[i], r.u64(), r);
    else if (i < OPS.size() + 2 * PLAIN.size()) { for (int q = 0; q < 4; q++) { i = (i - OPS.size()) % PLAIN.size() + OPS.size(); auto s = r.u64(); one(PLAIN[i - OPS.size()], s, -1, 0); if (q == 0) with_faults(PLAIN[i - OPS.size()], s, r); } }
    else conversation(r);
}
void prop_fini() { clear_faults(); g_watching = false; }
} // namespace v
