#include "common.hpp"
#include <openssl/rand.h>
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <sys/time.h>
#include <sys/random.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <valgrind/memcheck.h>

extern "C" __attribute__((weak)) int __lsan_do_recoverable_leak_check(void);
extern "C" __attribute__((weak)) const char *__lsan_default_options(void) { return "report_objects=0:print_suppressions=0"; }

namespace v {

bool g_thorough = false;
uint64_t g_seed = 1, g_case = 0;
thread_local int g_harness_depth = 0;

static std::mutex g_mu;
static FILE *g_out = nullptr;
static int g_progress = -1;
static std::map<std::string, uint64_t> g_events;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::map<std::string, int> g_viol_keys;
static uint64_t g_viol = 0, g_evals = 0;

std::string fmt(const char *f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o += (char)c;
    }
    return o + "\"";
}

// watching for one thing only: what else is wrong is for the workload's own property
static uint64_t g_leaks = 0;       // leaks, each so many cases
static bool g_memcheck = false;    // errors that valgrind reports
void viol(const std::string &key, const std::string &detail)
{
    InHarness ih;
    if ((g_leaks && key != "leak") || (g_memcheck && key != "memcheck")) return;
    std::lock_guard<std::mutex> l(g_mu);
    g_viol++;
    if (g_viol_keys[key]++ < 3) {
        fprintf(g_out ? g_out : stderr, "{\"t\":\"viol\",\"key\":%s,\"detail\":%s,\"case\":%" PRIu64 "}\n", jstr(key).c_str(), jstr(detail).c_str(), g_case);
        fflush(g_out ? g_out : stderr);
    }
}
uint64_t viol_count() { return g_viol; }
void ev(const char *name, uint64_t n) { InHarness ih; std::lock_guard<std::mutex> l(g_mu); g_events[name] += n; }
void distinct(uint64_t h) { InHarness ih; std::lock_guard<std::mutex> l(g_mu); if (g_distinct.size() < 400000) g_distinct.insert(h); }
static std::vector<std::string> g_dsamples; // situations as they were named, spread over the run
static uint64_t g_dnew;
void distinct_named(const std::string &s, uint64_t h)
{
    InHarness ih;
    std::lock_guard<std::mutex> l(g_mu);
    if (g_distinct.size() >= 400000 || !g_distinct.insert(h).second) return;
    g_dnew++;
    if (g_dsamples.size() < 4) g_dsamples.push_back(s);
    else if ((g_dnew & (g_dnew - 1)) == 0) g_dsamples[(g_dnew >> 3) % 4] = s;
}
void sample(const std::string &s) { InHarness ih; std::lock_guard<std::mutex> l(g_mu); if (g_samples.size() < 4) g_samples.push_back(s); }
void evals(uint64_t n) { __atomic_fetch_add(&g_evals, n, __ATOMIC_RELAXED); }

// ------------------------------------------------------------------ equality
#define BOTH(a, b) if (!(a) || !(b)) return (a) == (b)
bool same(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { if (!a || !b) return a == b; return cipher_eq(a->cipher, b->cipher) && same(a->key_data, b->key_data); }
bool same(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b) { if (!a || !b) return a == b; return cipher_eq(a->cipher, b->cipher) && same(a->iv, b->iv) && same(a->cipher_text, b->cipher_text) && same(a->auth_tag, b->auth_tag); }
static bool curve_eq(wickr_ec_curve_t a, wickr_ec_curve_t b) { return a.identifier == b.identifier && a.signature_size == b.signature_size && a.max_pub_size == b.max_pub_size; }
bool same_pub(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { if (!a || !b) return a == b; return curve_eq(a->curve, b->curve) && same(a->pub_data, b->pub_data); }
bool same(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { if (!a || !b) return a == b; return same_pub(a, b) && same(a->pri_data, b->pri_data); }
bool same(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b) { if (!a || !b) return a == b; return curve_eq(a->curve, b->curve) && a->digest_mode.digest_id == b->digest_mode.digest_id && same(a->sig_data, b->sig_data); }
bool same_pub(const wickr_identity_t *a, const wickr_identity_t *b) { if (!a || !b) return a == b; return a->type == b->type && same(a->identifier, b->identifier) && same_pub(a->sig_key, b->sig_key) && same(a->signature, b->signature); }
bool same(const wickr_identity_t *a, const wickr_identity_t *b) { if (!a || !b) return a == b; return same_pub(a, b) && same(a->sig_key, b->sig_key); }
bool same(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { if (!a || !b) return a == b; return same(a->root, b->root) && same(a->node, b->node); }
bool same_pub(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { if (!a || !b) return a == b; return same_pub(a->root, b->root) && same_pub(a->node, b->node); }
bool same_pub(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { if (!a || !b) return a == b; return a->identifier == b->identifier && same_pub(a->ec_key, b->ec_key) && same(a->signature, b->signature); }
bool same(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { if (!a || !b) return a == b; return same_pub(a, b) && same(a->ec_key, b->ec_key); }
bool same_pub(const wickr_node_t *a, const wickr_node_t *b) { if (!a || !b) return a == b; return same(a->dev_id, b->dev_id) && same_pub(a->id_chain, b->id_chain) && same_pub(a->ephemeral_keypair, b->ephemeral_keypair); }
bool same(const wickr_node_t *a, const wickr_node_t *b) { if (!a || !b) return a == b; return same_pub(a, b) && same(a->id_chain, b->id_chain) && same(a->ephemeral_keypair, b->ephemeral_keypair); }
bool same(const wickr_storage_keys_t *a, const wickr_storage_keys_t *b) { if (!a || !b) return a == b; return same(a->local, b->local) && same(a->remote, b->remote); }
bool same(const wickr_root_keys_t *a, const wickr_root_keys_t *b) { if (!a || !b) return a == b; return same(a->node_signature_root, b->node_signature_root) && same(a->node_storage_root, b->node_storage_root) && same(a->remote_storage_root, b->remote_storage_root); }
bool same(const wickr_dev_info_t *a, const wickr_dev_info_t *b) { if (!a || !b) return a == b; return same(a->dev_salt, b->dev_salt) && same(a->system_salt, b->system_salt) && same(a->msg_proto_id, b->msg_proto_id) && same(a->srv_comm_id, b->srv_comm_id); }
bool same(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b) { if (!a || !b) return a == b; return a->ephemerality_settings.ttl == b->ephemerality_settings.ttl && a->ephemerality_settings.bor == b->ephemerality_settings.bor && a->content_type == b->content_type && same(a->channel_tag, b->channel_tag); }
bool same(const wickr_payload_t *a, const wickr_payload_t *b) { if (!a || !b) return a == b; return same(a->meta, b->meta) && same(a->body, b->body); }
bool same(const wickr_packet_t *a, const wickr_packet_t *b) { if (!a || !b) return a == b; return a->version == b->version && same(a->content, b->content) && same(a->signature, b->signature); }
bool same(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b) { if (!a || !b) return a == b; return a->key_id == b->key_id && same(a->exchange_id, b->exchange_id) && same(a->exchange_ciphertext, b->exchange_ciphertext); }
bool same(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b)
{
    if (!a || !b) return a == b;
    if (!same_pub(a->sender_pub, b->sender_pub)) return false;
    uint32_t n = wickr_array_get_item_count(a->exchanges);
    if (n != wickr_array_get_item_count(b->exchanges)) return false;
    for (uint32_t i = 0; i < n; i++) if (!same(wickr_exchange_array_fetch_item(a->exchanges, i), wickr_exchange_array_fetch_item(b->exchanges, i))) return false;
    return true;
}
bool same(const wickr_stream_key_t *a, const wickr_stream_key_t *b) { if (!a || !b) return a == b; return same(a->cipher_key, b->cipher_key) && same(a->evolution_key, b->evolution_key) && same(a->user_data, b->user_data) && a->packets_per_evolution == b->packets_per_evolution; }
bool same(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b) { if (!a || !b) return a == b; return a->algo.algo_id == b->algo.algo_id && a->algo.kdf_id == b->algo.kdf_id && a->algo.salt_size == b->algo.salt_size && a->algo.output_size == b->algo.output_size && a->algo.cost == b->algo.cost && same(a->salt, b->salt) && same(a->info, b->info); }
bool same(const wickr_ctx_t *a, const wickr_ctx_t *b) { if (!a || !b) return a == b; return same(a->dev_info, b->dev_info) && same(a->id_chain, b->id_chain) && same(a->storage_keys, b->storage_keys) && same(a->packet_header_key, b->packet_header_key) && a->pkt_enc_version == b->pkt_enc_version; }
bool same(const wickr_fingerprint_t *a, const wickr_fingerprint_t *b) { if (!a || !b) return a == b; return a->type == b->type && same(a->data, b->data); }

std::string snap(const wickr_buffer_t *b) { return b ? fmt("[%zu:", b->length) + std::string((const char *)b->bytes, b->length) + "]" : "-"; }
std::string snap(const wickr_cipher_key_t *k) { return k ? fmt("K%d", k->cipher.cipher_id) + snap(k->key_data) : "-"; }
std::string snap(const wickr_ec_key_t *k) { return k ? "E" + snap(k->pub_data) + snap(k->pri_data) : "-"; }
static std::string snap(const wickr_ecdsa_result_t *s) { return s ? fmt("S%d", s->digest_mode.digest_id) + snap(s->sig_data) : "-"; }
static std::string snap(const wickr_identity_t *i) { return i ? fmt("I%d", i->type) + snap(i->identifier) + snap(i->sig_key) + snap(i->signature) : "-"; }
std::string snap(const wickr_identity_chain_t *c) { return c ? "C" + snap(c->root) + snap(c->node) : "-"; }
std::string snap(const wickr_node_t *n) { return n ? "N" + snap(n->dev_id) + snap(n->id_chain) + (n->ephemeral_keypair ? fmt("%" PRIu64, n->ephemeral_keypair->identifier) + snap(n->ephemeral_keypair->ec_key) + snap(n->ephemeral_keypair->signature) : std::string("-")) : "-"; }
std::string snap(const wickr_ctx_t *c)
{
    if (!c) return "-";
    std::string s = "X" + snap(c->id_chain) + snap(c->packet_header_key) + fmt("%u", c->pkt_enc_version);
    if (c->dev_info) s += snap(c->dev_info->dev_salt) + snap(c->dev_info->system_salt) + snap(c->dev_info->msg_proto_id) + snap(c->dev_info->srv_comm_id);
    if (c->storage_keys) s += snap(c->storage_keys->local) + snap(c->storage_keys->remote);
    return s;
}
std::string snap(const wickr_payload_t *p) { return p ? fmt("P%" PRIu64 ",%" PRIu64 ",%u", p->meta->ephemerality_settings.ttl, p->meta->ephemerality_settings.bor, p->meta->content_type) + snap(p->meta->channel_tag) + snap(p->body) : "-"; }

// ------------------------------------------------------------------ random source
RandState &rand_state() { static thread_local RandState s; return s; }
static int hook_bytes(unsigned char *buf, int num)
{
    RandState &s = rand_state();
    InHarness ih;
    if (s.fail_after >= 0 && (int64_t)s.calls >= s.fail_after) { s.calls++; return 0; }
    s.calls++;
    s.bytes += num;
    if (s.active) {
        for (int i = 0; i < num; i += 8) { uint64_t x = s.rng.u64(); memcpy(buf + i, &x, std::min(8, num - i)); }
    } else {
        int off = 0;
        while (off < num) { ssize_t n = getrandom(buf + off, std::min(num - off, 256), 0); if (n <= 0) return 0; off += (int)n; }
    }
    if (s.record) s.draws.emplace_back(buf, buf + num);
    return 1;
}
static int hook_status() { return 1; }
static int hook_seed(const void *, int) { return 1; }
static int hook_add(const void *, int, double) { return 1; }
void rand_install()
{
    static RAND_METHOD m;
    m.seed = hook_seed; m.bytes = hook_bytes; m.cleanup = nullptr; m.add = hook_add; m.pseudorand = hook_bytes; m.status = hook_status;
    RAND_set_rand_method(&m);
}
void rand_seed(uint64_t seed) { RandState &s = rand_state(); s.active = true; s.rng = Rng(seed ^ 0x5eed5eed5eedull); s.calls = s.bytes = 0; s.fail_after = -1; s.draws.clear(); }

// ------------------------------------------------------------------ engine
const char *const op_name[OP_COUNT] = { "random", "key_random", "encrypt", "decrypt", "encrypt_file", "decrypt_file", "encrypt_ofile", "decrypt_ofile", "digest", "digest_file", "ec_rand_key", "ec_import", "ec_sign", "ec_verify", "to_raw", "from_raw", "ecdh", "hmac", "hmac_verify", "kdf_gen", "kdf_meta" };
Mon &mon() { static thread_local Mon m; return m; }
static const wickr_crypto_engine_t &real() { static const wickr_crypto_engine_t e = wickr_crypto_engine_get_default(); return e; }
wickr_crypto_engine_t plain_engine() { return real(); }

static bool gate(Op op)
{
    Mon &m = mon();
    uint64_t i = m.count++;
    m.per_op[op]++;
    if (m.budget && m.count > m.budget) { m.over_budget = true; return true; }
    if (m.fail_at >= 0 && ((int64_t)i == m.fail_at || (m.fail_persistent && (int64_t)i > m.fail_at))) { m.failed++; m.fail_op = op; return true; }
    return false;
}
static bool recording() { return mon().record || mon().on_call; }
static void emit(CallRec &&c)
{
    Mon &m = mon();
    if (m.on_call) m.on_call(c);
    if (m.record) m.calls.push_back(std::move(c));
}
#define REC(...) do { if (recording()) { InHarness ih; emit(CallRec{ __VA_ARGS__ }); } } while (0)
static Bytes SB(const wickr_buffer_t *b) { return B(b); }

static wickr_buffer_t *m_random(size_t len) { wickr_buffer_t *o = gate(OP_RANDOM) ? NULL : real().wickr_crypto_engine_crypto_random(len); REC(OP_RANDOM, {}, {}, {}, {}, SB(o), o != NULL, (int)len); return o; }
static wickr_cipher_key_t *m_keyrand(wickr_cipher_t c) { wickr_cipher_key_t *o = gate(OP_KEYRAND) ? NULL : real().wickr_crypto_engine_cipher_key_random(c); REC(OP_KEYRAND, {}, {}, {}, {}, o ? SB(o->key_data) : Bytes(), o != NULL, c.cipher_id); return o; }
static wickr_cipher_result_t *m_enc(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    wickr_cipher_result_t *o = gate(OP_ENC) ? NULL : real().wickr_crypto_engine_cipher_encrypt(pt, aad, key, iv);
    REC(OP_ENC, key ? SB(key->key_data) : Bytes(), o ? SB(o->iv) : SB(iv), SB(aad), SB(pt), o ? SB(o->cipher_text) : Bytes(), o != NULL, key ? key->cipher.cipher_id : -1);
    return o;
}
static wickr_buffer_t *m_dec(const wickr_cipher_result_t *cr, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    wickr_buffer_t *o = gate(OP_DEC) ? NULL : real().wickr_crypto_engine_cipher_decrypt(cr, aad, key, only_auth);
    REC(OP_DEC, key ? SB(key->key_data) : Bytes(), cr ? SB(cr->iv) : Bytes(), SB(aad), cr ? SB(cr->cipher_text) : Bytes(), SB(o), o != NULL, key ? key->cipher.cipher_id : -1);
    return o;
}
static bool m_encf(const wickr_cipher_key_t *key, const char *s, const char *d) { return gate(OP_ENCF) ? false : real().wickr_crypto_engine_encrypt_file(key, s, d); }
static bool m_decf(const wickr_cipher_key_t *key, const char *s, const char *d, bool a) { return gate(OP_DECF) ? false : real().wickr_crypto_engine_decrypt_file(key, s, d, a); }
static bool m_encof(FILE *i, const wickr_cipher_key_t *key, FILE *o) { return gate(OP_ENCOF) ? false : real().wickr_crypto_engine_encrypt_ofile(i, key, o); }
static bool m_decof(FILE *i, const wickr_cipher_key_t *key, FILE *o, bool a) { return gate(OP_DECOF) ? false : real().wickr_crypto_engine_decrypt_ofile(i, key, o, a); }
static wickr_buffer_t *m_digest(const wickr_buffer_t *b, const wickr_buffer_t *salt, wickr_digest_t d) { wickr_buffer_t *o = gate(OP_DIGEST) ? NULL : real().wickr_crypto_engine_digest(b, salt, d); REC(OP_DIGEST, {}, {}, SB(salt), SB(b), SB(o), o != NULL, d.digest_id); return o; }
static wickr_buffer_t *m_digestf(FILE *f, const wickr_digest_t d) { return gate(OP_DIGESTF) ? NULL : real().wickr_crypto_engine_digest_file(f, d); }
static wickr_ec_key_t *m_ecrand(wickr_ec_curve_t c) { wickr_ec_key_t *o = gate(OP_ECRAND) ? NULL : real().wickr_crypto_engine_ec_rand_key(c); REC(OP_ECRAND, {}, {}, {}, o ? SB(o->pub_data) : Bytes(), o ? SB(o->pri_data) : Bytes(), o != NULL, 0); return o; }
static wickr_ec_key_t *m_ecimport(const wickr_buffer_t *b, bool pri) { wickr_ec_key_t *o = gate(OP_ECIMPORT) ? NULL : real().wickr_crypto_engine_ec_key_import(b, pri); REC(OP_ECIMPORT, {}, {}, {}, SB(b), o && o->pri_data ? SB(o->pri_data) : Bytes(), o != NULL, pri); return o; }
static wickr_ecdsa_result_t *m_sign(const wickr_ec_key_t *k, const wickr_buffer_t *d, const wickr_digest_t m) { wickr_ecdsa_result_t *o = gate(OP_SIGN) ? NULL : real().wickr_crypto_engine_ec_sign(k, d, m); REC(OP_SIGN, k ? SB(k->pub_data) : Bytes(), {}, {}, SB(d), o ? SB(o->sig_data) : Bytes(), o != NULL, m.digest_id); return o; }
static bool m_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d) { bool o = gate(OP_VERIFY) ? false : real().wickr_crypto_engine_ec_verify(s, k, d); REC(OP_VERIFY, k ? SB(k->pub_data) : Bytes(), {}, {}, SB(d), {}, o, 0); return o; }
static wickr_buffer_t *m_toraw(const wickr_ecdsa_result_t *s) { return gate(OP_TORAW) ? NULL : real().wickr_crypto_engine_ecdsa_to_raw(s); }
static wickr_ecdsa_result_t *m_fromraw(const wickr_ec_curve_t c, const wickr_digest_t d, const wickr_buffer_t *b) { return gate(OP_FROMRAW) ? NULL : real().wickr_crypto_engine_ecdsa_from_raw(c, d, b); }
static wickr_buffer_t *m_ecdh(const wickr_ec_key_t *l, const wickr_ec_key_t *p) { wickr_buffer_t *o = gate(OP_ECDH) ? NULL : real().wickr_crypto_engine_gen_shared_secret(l, p); REC(OP_ECDH, l ? SB(l->pub_data) : Bytes(), p ? SB(p->pub_data) : Bytes(), {}, {}, SB(o), o != NULL, 0); return o; }
static wickr_buffer_t *m_hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) { wickr_buffer_t *o = gate(OP_HMAC) ? NULL : real().wickr_crypto_engine_hmac_create(d, k, m); REC(OP_HMAC, SB(k), {}, {}, SB(d), SB(o), o != NULL, m.digest_id); return o; }
static bool m_hmacv(const wickr_buffer_t *d, const wickr_buffer_t *k, const wickr_digest_t m, const wickr_buffer_t *e) { return gate(OP_HMACV) ? false : real().wickr_crypto_engine_hmac_verify(d, k, m, e); }
static wickr_kdf_result_t *m_kdfgen(wickr_kdf_algo_t a, const wickr_buffer_t *p) { wickr_kdf_result_t *o = gate(OP_KDFGEN) ? NULL : real().wickr_crypto_kdf_gen(a, p); REC(OP_KDFGEN, {}, o && o->meta ? SB(o->meta->salt) : Bytes(), {}, SB(p), o ? SB(o->hash) : Bytes(), o != NULL, a.kdf_id); return o; }
static wickr_kdf_result_t *m_kdfmeta(const wickr_kdf_meta_t *mt, const wickr_buffer_t *p) { wickr_kdf_result_t *o = gate(OP_KDFMETA) ? NULL : real().wickr_crypto_kdf_meta(mt, p); REC(OP_KDFMETA, {}, mt ? SB(mt->salt) : Bytes(), mt ? SB(mt->info) : Bytes(), SB(p), o ? SB(o->hash) : Bytes(), o != NULL, mt ? (int)mt->algo.kdf_id : -1); return o; }

wickr_crypto_engine_t mon_engine()
{
    wickr_crypto_engine_t e = real();
    e.wickr_crypto_engine_crypto_random = m_random;
    e.wickr_crypto_engine_cipher_key_random = m_keyrand;
    e.wickr_crypto_engine_cipher_encrypt = m_enc;
    e.wickr_crypto_engine_cipher_decrypt = m_dec;
    e.wickr_crypto_engine_encrypt_file = m_encf;
    e.wickr_crypto_engine_decrypt_file = m_decf;
    e.wickr_crypto_engine_encrypt_ofile = m_encof;
    e.wickr_crypto_engine_decrypt_ofile = m_decof;
    e.wickr_crypto_engine_digest = m_digest;
    e.wickr_crypto_engine_digest_file = m_digestf;
    e.wickr_crypto_engine_ec_rand_key = m_ecrand;
    e.wickr_crypto_engine_ec_key_import = m_ecimport;
    e.wickr_crypto_engine_ec_sign = m_sign;
    e.wickr_crypto_engine_ec_verify = m_verify;
    e.wickr_crypto_engine_ecdsa_to_raw = m_toraw;
    e.wickr_crypto_engine_ecdsa_from_raw = m_fromraw;
    e.wickr_crypto_engine_gen_shared_secret = m_ecdh;
    e.wickr_crypto_engine_hmac_create = m_hmac;
    e.wickr_crypto_engine_hmac_verify = m_hmacv;
    e.wickr_crypto_kdf_gen = m_kdfgen;
    e.wickr_crypto_kdf_meta = m_kdfmeta;
    return e;
}

// ------------------------------------------------------------------ actors
static Device finish_device(H<wickr_ctx_gen_result_t> g, Bytes sys)
{
    Device d;
    d.gen = std::move(g);
    wickr_ctx_t *c = d.ctx();
    d.root_id = B(c->id_chain->root->identifier);
    d.node_id = B(c->id_chain->node->identifier);
    d.dev_id = B(c->dev_info->msg_proto_id);
    d.system_id = sys;
    return d;
}
static Bytes rand_identifier(Rng &r)
{
    // identifiers are 32-byte values by convention (IDENTIFIER_LEN); others up to the maximum are allowed
    size_t n = r.chance(2, 3) ? 32 : r.range(1, 127);
    Bytes b = r.bytes(n);
    if (r.chance(1, 4)) b[r.below(n)] = 0;
    return b;
}
Device make_device(Rng &r, wickr_crypto_engine_t e, const Bytes *identifier)
{
    Bytes sys = r.bytes(r.range(8, 64));
    auto sysb = mk(sys);
    auto di = own(wickr_dev_info_create_new(&e, sysb.get()));
    REQUIRE(di, "make-device", "creating device information failed");
    auto id = mk(identifier ? *identifier : rand_identifier(r));
    auto g = own(wickr_ctx_gen_new(e, di.get(), id.get()));
    REQUIRE(g && g->ctx && g->root_keys && g->recovery_key, "make-device", "generating a device context failed");
    return finish_device(std::move(g), sys);
}
Device add_device(Rng &r, wickr_crypto_engine_t e, const Device &first)
{
    Bytes sys = r.bytes(r.range(8, 64));
    auto sysb = mk(sys);
    auto di = own(wickr_dev_info_create_new(&e, sysb.get()));
    REQUIRE(di, "make-device", "creating device information failed");
    auto id = mk(first.root_id);
    auto g = own(wickr_ctx_gen_with_root_keys(e, di.get(), first.gen->root_keys, id.get()));
    REQUIRE(g && g->ctx, "make-device", "adding a device to an account failed");
    return finish_device(std::move(g), sys);
}
H<wickr_ephemeral_keypair_t> gen_eph(const Device &d, uint64_t id)
{
    auto k = own(wickr_ctx_ephemeral_keypair_gen(d.ctx(), id));
    REQUIRE(k && k->ec_key && k->ec_key->pri_data, "make-device", "generating an ephemeral key pair failed");
    return k;
}
H<wickr_identity_chain_t> public_chain(const Device &d, wickr_crypto_engine_t e)
{
    auto s = own(wickr_identity_chain_serialize(d.chain()));
    REQUIRE(s, "make-device", "serializing an identity chain failed");
    auto c = own(wickr_identity_chain_create_from_buffer(s.get(), &e));
    REQUIRE(c, "make-device", "parsing a serialized identity chain failed");
    return c;
}
H<wickr_node_t> public_node(const Device &d, const wickr_ephemeral_keypair_t *eph, wickr_crypto_engine_t e)
{
    auto n = own(wickr_node_create(wickr_buffer_copy(d.ctx()->dev_info->msg_proto_id), wickr_identity_chain_copy(d.chain()), wickr_ephemeral_keypair_copy(eph)));
    REQUIRE(n, "make-device", "creating a node failed");
    auto s = own(wickr_node_serialize(n.get()));
    REQUIRE(s, "make-device", "serializing a node failed");
    auto p = own(wickr_node_create_from_buffer(s.get(), &e));
    REQUIRE(p, "make-device", "parsing a serialized node failed");
    return p;
}
NodeArr node_array(const std::vector<wickr_node_t *> &nodes)
{
    NodeArr a(wickr_node_array_new((uint32_t)nodes.size()));
    REQUIRE(a, "make-device", "node array of %zu failed", nodes.size());
    for (size_t i = 0; i < nodes.size(); i++) REQUIRE(wickr_node_array_set_item(a.get(), (uint32_t)i, nodes[i]), "make-device", "node array set %zu failed", i);
    return a;
}
H<wickr_payload_t> make_payload(const Bytes &body, uint64_t ttl, uint64_t bor, const Bytes *tag, uint16_t type)
{
    wickr_ephemeral_info_t e;
    e.ttl = ttl;
    e.bor = bor;
    wickr_packet_meta_t *m = wickr_packet_meta_create(e, tag ? mkp(*tag) : NULL, type);
    auto p = own(wickr_payload_create(m, mkp(body)));
    REQUIRE(p, "make-payload", "creating a payload failed (body %zu)", body.size());
    return p;
}
PayloadSpec gen_payload(Rng &r, size_t max_body)
{
    PayloadSpec s;
    s.body = gen_bytes(r, max_body);
    s.ttl = gen_u64(r);
    s.bor = gen_u64(r);
    s.has_tag = true;
    s.tag = gen_bytes(r, 300);
    s.type = r.chance(1, 3) ? r.pick<uint16_t>({ 0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff }) : (uint16_t)r.u64();
    return s;
}
H<wickr_payload_t> make_payload(const PayloadSpec &s) { return make_payload(s.body, s.ttl, s.bor, s.has_tag ? &s.tag : nullptr, s.type); }
bool payload_matches(const wickr_payload_t *p, const PayloadSpec &s, std::string *why)
{
    std::string w;
    if (!p || !p->meta) w = "no payload";
    else if (!eq(p->body, s.body)) w = fmt("body differs (got %zu bytes)", p->body ? p->body->length : 0);
    else if (p->meta->ephemerality_settings.ttl != s.ttl) w = "ttl differs";
    else if (p->meta->ephemerality_settings.bor != s.bor) w = "burn-on-read differs";
    else if (p->meta->content_type != s.type) w = "content type differs";
    else if (s.has_tag ? !eq(p->meta->channel_tag, s.tag) : p->meta->channel_tag != NULL) w = "channel tag differs";
    if (why) *why = w;
    return w.empty();
}

Bytes mutate(Rng &r, const Bytes &in, std::string *what)
{
    for (;;) {
        Bytes b = in;
        std::string w;
        size_t n = b.size();
        switch (n ? r.below(12) : 3) {
            case 0: case 1: { size_t i = r.below(n); unsigned k = (unsigned)r.below(8); b[i] ^= (uint8_t)(1u << k); w = fmt("flip bit %u of byte %zu/%zu", k, i, n); break; }
            case 2: { size_t i = r.below(n); uint8_t x = r.pick<uint8_t>({ 0, 1, 0x7f, 0x80, 0xff, (uint8_t)(b[i] + 1), (uint8_t)(b[i] - 1) }); b[i] = x; w = fmt("byte %zu/%zu := %02x", i, n, x); break; }
            case 3: { size_t k = r.range(1, 40); Bytes x = r.bytes(k); size_t i = r.below(n + 1); b.insert(b.begin() + i, x.begin(), x.end()); w = fmt("insert %zu at %zu/%zu", k, i, n); break; }
            case 4: { size_t i = r.below(n), k = r.range(1, std::min<size_t>(n - i, 40)); b.erase(b.begin() + i, b.begin() + i + k); w = fmt("delete %zu at %zu/%zu", k, i, n); break; }
            case 5: { size_t k = r.below(n); b.resize(k); w = fmt("truncate to %zu/%zu", k, n); break; }
            case 6: { size_t k = r.range(1, 20); for (size_t i = 0; i < k; i++) b.push_back(r.chance(1, 2) ? 0 : (uint8_t)r.u64()); w = fmt("extend %zu by %zu", n, k); break; }
            case 7: { size_t i = r.below(n), k = r.range(1, std::min<size_t>(n - i, 64)); Bytes x(b.begin() + i, b.begin() + i + k); size_t j = r.below(n + 1); b.insert(b.begin() + j, x.begin(), x.end()); w = fmt("duplicate %zu+%zu at %zu/%zu", i, k, j, n); break; }
            case 8: { size_t i = r.below(n), k = r.range(1, std::min<size_t>(n - i, 32)); std::fill(b.begin() + i, b.begin() + i + k, r.chance(1, 2) ? 0 : 0xff); w = fmt("fill %zu+%zu/%zu", i, k, n); break; }
            case 9: { size_t i = r.below(n), j = r.below(n); std::swap(b[i], b[j]); w = fmt("swap %zu,%zu/%zu", i, j, n); break; }
            case 10: { unsigned k = (unsigned)r.range(2, 6); for (unsigned q = 0; q < k; q++) b[r.below(n)] ^= (uint8_t)r.range(1, 255); w = fmt("%u random bytes of %zu", k, n); break; }
            default: { size_t i = r.below(n); b[i] ^= (uint8_t)r.range(1, 255); w = fmt("change byte %zu/%zu", i, n); break; }
        }
        if (b != in) { if (what) *what = w; return b; }
    }
}

Bytes scalar_of(const wickr_ec_key_t *k)
{
    if (!k || !k->pri_data) return Bytes();
    const unsigned char *p = k->pri_data->bytes;
    EVP_PKEY *pk = d2i_AutoPrivateKey(NULL, &p, (long)k->pri_data->length);
    if (!pk) return Bytes();
    Bytes out;
    BIGNUM *d = NULL;
    if (EVP_PKEY_get_bn_param(pk, "priv", &d) == 1) {
        out.resize(66);
        if (BN_bn2binpad(d, out.data(), 66) != 66) out.clear();
        BN_clear_free(d);
    }
    EVP_PKEY_free(pk);
    return out;
}

bool leak_check()
{
    if (!&__lsan_do_recoverable_leak_check) return false;
    return __lsan_do_recoverable_leak_check() != 0;
}

} // namespace v

// ------------------------------------------------------------------ driver
using namespace v;

static uint64_t g_budget_cpu = 60;
static void on_prof(int) { static const char m[] = "HARNESS-HANG cpu budget of one case exhausted\n"; if (write(2, m, sizeof m - 1)) {} _exit(99); }
static void arm() { struct itimerval t = {}; t.it_value.tv_sec = (time_t)g_budget_cpu; setitimer(ITIMER_PROF, &t, NULL); }

static void dump()
{
    FILE *o = g_out ? g_out : stdout;
    std::string s = "{\"t\":\"stat\",\"evals\":" + std::to_string(g_evals) + ",\"events\":{";
    bool first = true;
    for (auto &e : g_events) { s += (first ? "" : ",") + jstr(e.first) + ":" + std::to_string(e.second); first = false; }
    s += "},\"samples\":[";
    first = true;
    for (auto &e : g_samples.empty() ? g_dsamples : g_samples) { s += (first ? "" : ",") + jstr(e); first = false; }
    s += "],\"distinct\":[";
    first = true;
    for (auto &e : g_distinct) { s += (first ? "" : ",") + std::to_string(e); first = false; }
    s += "]}\n";
    fputs(s.c_str(), o);
    fflush(o);
}

#ifndef VERIF_NO_MAIN
int main(int argc, char **argv)
{
    uint64_t from = 0, to = 1, step = 1, deadline = 0, since = 0;
    time_t t0 = time(NULL);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return i + 1 < argc ? argv[++i] : (char *)"0"; };
        if (a == "--seed") g_seed = strtoull(nxt(), 0, 0);
        else if (a == "--from") from = strtoull(nxt(), 0, 0);
        else if (a == "--to") to = strtoull(nxt(), 0, 0);
        else if (a == "--step") step = strtoull(nxt(), 0, 0);
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--deadline") deadline = strtoull(nxt(), 0, 0);
        else if (a == "--memcheck") { g_memcheck = true; if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under valgrind\n"); return 3; } }
        else if (a == "--leaks") g_leaks = strtoull(nxt(), 0, 0);
        else if (a == "--budget") g_budget_cpu = strtoull(nxt(), 0, 0);
        else if (a == "--out") { g_out = fopen(nxt(), "a"); if (!g_out) return 3; }
        else if (a == "--progress") { g_progress = open(nxt(), O_RDWR | O_CREAT, 0644); if (g_progress < 0) return 3; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    signal(SIGPROF, on_prof);
    rand_install();
    rand_seed(g_seed * 1000003);
    prop_init();
    for (uint64_t k = from; k < to; k += step) {
        g_case = k;
        if (g_progress >= 0) { char t[64]; int n = snprintf(t, sizeof t, "%20" PRIu64 "\n", k); if (pwrite(g_progress, t, n, 0) != n) return 3; }
        arm();
        uint64_t mix = g_seed * 0x9e3779b97f4a7c15ull + k * 0xbf58476d1ce4e5b9ull + 12345;
        Rng r(mix);
        rand_seed(mix ^ 0xabcdef);
        mon().reset();
        mon().record = false;
        mon().on_call = nullptr;
        uint64_t before = g_viol, errors = VALGRIND_COUNT_ERRORS;
        try { prop_case(k, r); } catch (CaseAbort &) { }
        ev("cases");
        if (g_memcheck && VALGRIND_COUNT_ERRORS != errors) viol("memcheck", "valgrind reports an error");
        if (g_leaks && !g_viol && ++since >= g_leaks) { since = 0; ev("leak_checks"); if (leak_check()) viol("leak", "memory is leaked"); }
        if (g_viol != before) ev("cases_with_violation");
        if (g_viol > 200) break;
        if (deadline && (uint64_t)(time(NULL) - t0) > deadline) { ev("stopped_at_deadline"); break; }
    }
    if (g_leaks && !g_viol && since) { ev("leak_checks"); if (leak_check()) viol("leak", "memory is leaked"); }
    prop_fini();
    dump();
    if (g_out) fclose(g_out);
    _exit(0);
}
#endif
