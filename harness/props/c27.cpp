// C27: copies are complete and independent; every object is freed exactly once; ownership moves only on success.
// A ledger of live blocks by owner decides what each destruction frees.
#include "memhook.hpp"
#include "dump.hpp"
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C27";
static World W;
static wickr_crypto_engine_t E;
static Ledger L;
static std::vector<Bytes> g_ctx_bufs, g_ctx_exports;
static Bytes g_pass;

} // namespace v
#include "kinds.hpp"
namespace v {

// ------------------------------------------------------------------ tracked objects
static uint32_t g_tag;
struct Obj { int k; void *p; uint32_t tag; std::string d; };
static Obj make(Rng &r, int k)
{
    Obj o{ k, nullptr, ++g_tag, "" };
    { Owner w(o.tag); o.p = K[k].make(r); }
    REQUIRE(o.p, fmt("not-made:%s", K[k].name), "a %s could not be made", K[k].name);
    o.d = K[k].dmp(o.p);
    return o;
}
// destroys an object: everything it owns and nothing else, and the pointer is cleared
static void kill(Obj &o, const std::vector<uint32_t> &owns = {}, const char *why = "destroying")
{
    const char *n = K[o.k].name;
    uint64_t before = 0;
    for (uint32_t t = 1; t <= g_tag; t++) before += L.live[t];
    memset(L.freed, 0, (g_tag + 1) * sizeof *L.freed);
    uint64_t own_blocks = L.live[o.tag];
    for (auto t : owns) own_blocks += L.live[t];
    void *was = o.p;
    { Owner w(o.tag); K[o.k].destroy(&o.p); }
    EXPECT(!o.p, fmt("pointer-kept:%s", n), "destroying a %s leaves the pointer (%p)", n, was);
    EXPECT(L.live[o.tag] == 0, fmt("not-freed:%s", n), "%s a %s leaves %u of its blocks allocated", why, n, L.live[o.tag]);
    for (auto t : owns) EXPECT(L.live[t] == 0, fmt("not-freed:%s", n), "%s a %s leaves %u blocks it took over allocated", why, n, L.live[t]);
    uint64_t after = 0, freed = 0;
    for (uint32_t t = 1; t <= g_tag; t++) { after += L.live[t]; freed += L.freed[t]; }
    EXPECT(before - after <= own_blocks, fmt("freed-others:%s", n), "destroying a %s frees %" PRIu64 " blocks of other objects", n, before - after - own_blocks);
    o.p = nullptr;
    K[o.k].destroy(&o.p);
    EXPECT(!o.p, fmt("pointer-kept:%s", n), "destroying a cleared %s", n);
    L.live[o.tag] = 0;
    ev("destroyed");
    ev("blocks_freed", freed);
}
static void scribble(Rng &r, Obj &o)
{
    std::string n = K[o.k].name;
    // (the header key of a context follows from its chain, so those two are not changed on their own)
    auto wlk = K[o.k].wlk;
    if (n == "ctx" || n == "ctx_gen_result") wlk = [n](void *p, const BufFn &f) { auto *g = n == "ctx" ? NULL : (wickr_ctx_gen_result_t *)p; auto *c = g ? g->ctx : (wickr_ctx_t *)p; walk(c->dev_info, f); walk(c->storage_keys, f); if (g) { walk(g->recovery_key, f); walk(g->root_keys, f); } };
    wlk(o.p, [&](wickr_buffer_t *b) { if (b->length && r.chance(7, 8)) b->bytes[r.below(b->length)] ^= (uint8_t)r.range(1, 255); });
    o.d = K[o.k].dmp(o.p);
}
static void same_as(const Obj &o, const char *when) { std::string d = K[o.k].dmp(o.p); EXPECT(d == o.d, fmt("changed:%s", K[o.k].name), "a %s changed %s", K[o.k].name, when); ev("compared"); }

// objects made, copied, changed, read and destroyed in any order
static void history(Rng &r)
{
    std::vector<Obj> pool;
    static int focus = 0;
    int a = (int)(g_case / 4 + focus) % (int)K.size(), b = (int)r.below(K.size());
    int ops = (int)r.range(20, 60);
    for (int i = 0; i < ops; i++) {
        int op = (int)r.below(10);
        if (pool.empty() || (op < 2 && pool.size() < 24)) { pool.push_back(make(r, r.chance(1, 2) ? a : r.chance(1, 2) ? b : (int)r.below(K.size()))); continue; }
        size_t j = r.below(pool.size());
        Obj &o = pool[j];
        const char *n = K[o.k].name;
        if (op < 6) {
            if (!K[o.k].copy || pool.size() >= 24) continue;
            Obj c{ o.k, nullptr, ++g_tag, "" };
            uint64_t live = L.live[o.tag];
            { Owner w(c.tag); c.p = K[o.k].copy(o.p); }
            EXPECT(L.live[o.tag] == live, fmt("copy-frees:%s", n), "copying a %s frees parts of it", n);
            REQUIRE(c.p, fmt("copy-failed:%s", n), "a valid %s can not be copied: %.300s", n, o.d.c_str());
            EXPECT(c.p != o.p, fmt("copy-shared:%s", n), "the copy of a %s is the object itself", n);
            c.d = K[c.k].dmp(c.p);
            EXPECT(c.d == o.d, fmt("copy-differs:%s", n), "the copy of a %s differs: %.400s instead of %.400s", n, c.d.c_str(), o.d.c_str());
            same_as(o, "by being copied");
            ev("copies");
            distinct(fmt("copy %s %zu", n, std::hash<std::string>()(o.d) % 40));
            std::string u1, u2;
            { InHarness h; u1 = K[o.k].use(o.p); u2 = K[o.k].use(c.p); }
            EXPECT(u1 == u2, fmt("copy-behaves:%s", n), "a %s and its copy give different results", n);
            pool.push_back(c);
        } else if (op < 7) { scribble(r, o); ev("scribbled"); }
        else if (op < 8) { InHarness h; K[o.k].use(o.p); }
        else { kill(o); pool.erase(pool.begin() + j); }
        for (int q = 0; q < 6 && !pool.empty(); q++) same_as(pool[r.below(pool.size())], "while others were copied, changed and destroyed");
    }
    for (auto &o : pool) same_as(o, "while others were copied, changed and destroyed");
    r.shuffle(pool);
    for (auto &o : pool) { same_as(o, "while others were destroyed"); kill(o); }
}

// ------------------------------------------------------------------ operations that take ownership
struct Cons { const char *name; std::vector<const char *> args; const char *res; std::function<void *(Rng &, void **)> call; };
static std::vector<Cons> C;
#define A(T, i) ((wickr_##T##_t *)a[i])
static uint32_t evos(Rng &r) { return (uint32_t)r.pick({ 0, 1, 2, 512, 32767, 32768, 32769, 65536, -1 }); }
static void consumers()
{
    C = {
        { "cipher_result_create", { "buffer", "buffer", "buffer" }, "cipher_result", [](Rng &r, void **a) { return (void *)wickr_cipher_result_create(ciph(r), A(buffer, 0), A(buffer, 1), A(buffer, 2)); } },
        { "cipher_key_create", { "buffer" }, "cipher_key", [](Rng &r, void **a) { return (void *)wickr_cipher_key_create(ciph(r), A(buffer, 0)); } },
        { "dev_info_create", { "buffer", "buffer", "buffer", "buffer" }, "dev_info", [](Rng &, void **a) { return (void *)wickr_dev_info_create(A(buffer, 0), A(buffer, 1), A(buffer, 2), A(buffer, 3)); } },
        { "dev_info_derive", { "buffer" }, "dev_info", [](Rng &r, void **a) { View s(r.bytes(r.range(1, 40))); return (void *)wickr_dev_info_derive(&E, A(buffer, 0), r.chance(1, 8) ? NULL : &s); } },
        { "ecdh_cipher_ctx_create_key", { "ec_key" }, "ecdh_cipher_ctx", [](Rng &r, void **a) { return (void *)wickr_ecdh_cipher_ctx_create_key(E, A(ec_key, 0), ciph(r)); } },
        { "ecdsa_result_create", { "buffer" }, "ecdsa_result", [](Rng &r, void **a) { return (void *)wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dig(r), A(buffer, 0)); } },
        { "ec_key_create", { "buffer", "buffer" }, "ec_key", [](Rng &, void **a) { return (void *)wickr_ec_key_create(EC_CURVE_NIST_P521, A(buffer, 0), A(buffer, 1)); } },
        { "encoder_result_create", { "cipher_key", "packet" }, "encoder_result", [](Rng &, void **a) { return (void *)wickr_encoder_result_create(A(cipher_key, 0), A(packet, 1)); } },
        { "ephemeral_keypair_create", { "ec_key", "ecdsa_result" }, "ephemeral_keypair", [](Rng &r, void **a) { return (void *)wickr_ephemeral_keypair_create(gen_u64(r), A(ec_key, 0), A(ecdsa_result, 1)); } },
        { "fingerprint_create", { "buffer" }, "fingerprint", [](Rng &, void **a) { return (void *)wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, A(buffer, 0)); } },
        { "identity_create", { "buffer", "ec_key", "ecdsa_result" }, "identity", [](Rng &r, void **a) { return (void *)wickr_identity_create(r.chance(1, 2) ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE, A(buffer, 0), A(ec_key, 1), A(ecdsa_result, 2)); } },
        { "identity_chain_create", { "identity", "identity" }, "identity_chain", [](Rng &, void **a) { return (void *)wickr_identity_chain_create(A(identity, 0), A(identity, 1)); } },
        { "kdf_meta_create", { "buffer", "buffer" }, "kdf_meta", [](Rng &r, void **a) { return (void *)wickr_kdf_meta_create(r.pick({ KDF_SCRYPT_2_17, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA512 }), A(buffer, 0), A(buffer, 1)); } },
        { "kdf_meta_create_hkdf_expand", { "buffer" }, "kdf_meta", [](Rng &r, void **a) { auto d = dig(r); return (void *)wickr_kdf_meta_create_hkdf_expand(r.chance(1, 8) ? NULL : r.chance(1, 2) ? &DIGEST_SHA_512 : &d, A(buffer, 0), r.pick({ 1, 32, 64, 255, 256, 100000 })); } },
        { "kdf_result_create", { "kdf_meta", "buffer" }, "kdf_result", [](Rng &, void **a) { return (void *)wickr_kdf_result_create(A(kdf_meta, 0), A(buffer, 1)); } },
        { "key_exchange_create", { "buffer", "cipher_result" }, "key_exchange", [](Rng &r, void **a) { return (void *)wickr_key_exchange_create(A(buffer, 0), gen_u64(r), A(cipher_result, 1)); } },
        { "key_exchange_set_create", { "ec_key", "exchange_array" }, "key_exchange_set", [](Rng &, void **a) { return (void *)wickr_key_exchange_set_create(A(ec_key, 0), (wickr_array_t *)a[1]); } },
        { "node_create", { "buffer", "identity_chain", "ephemeral_keypair" }, "node", [](Rng &, void **a) { return (void *)wickr_node_create(A(buffer, 0), A(identity_chain, 1), A(ephemeral_keypair, 2)); } },
        { "packet_meta_create", { "buffer" }, "packet_meta", [](Rng &r, void **a) { wickr_ephemeral_info_t e = { gen_u64(r), gen_u64(r) }; return (void *)wickr_packet_meta_create(e, A(buffer, 0), (uint16_t)r.u64()); } },
        { "payload_create", { "packet_meta", "buffer" }, "payload", [](Rng &, void **a) { return (void *)wickr_payload_create(A(packet_meta, 0), A(buffer, 1)); } },
        { "packet_create", { "buffer", "ecdsa_result" }, "packet", [](Rng &r, void **a) { return (void *)wickr_packet_create((uint8_t)r.u64(), A(buffer, 0), A(ecdsa_result, 1)); } },
        { "parse_result_create_success", { "key_exchange_set", "key_exchange", "cipher_result" }, "parse_result", [](Rng &, void **a) { return (void *)wickr_parse_result_create_success(A(key_exchange_set, 0), A(key_exchange, 1), A(cipher_result, 2)); } },
        { "decode_result_create_success", { "payload", "cipher_key" }, "decode_result", [](Rng &, void **a) { return (void *)wickr_decode_result_create_success(A(payload, 0), A(cipher_key, 1)); } },
        { "root_keys_create", { "ec_key", "cipher_key", "cipher_key" }, "root_keys", [](Rng &, void **a) { return (void *)wickr_root_keys_create(A(ec_key, 0), A(cipher_key, 1), A(cipher_key, 2)); } },
        { "storage_keys_create", { "cipher_key", "cipher_key" }, "storage_keys", [](Rng &, void **a) { return (void *)wickr_storage_keys_create(A(cipher_key, 0), A(cipher_key, 1)); } },
        { "stream_key_create", { "cipher_key", "buffer" }, "stream_key", [](Rng &r, void **a) { return (void *)wickr_stream_key_create(A(cipher_key, 0), A(buffer, 1), evos(r)); } },
        { "stream_key_create_user_data", { "cipher_key", "buffer", "buffer" }, "stream_key", [](Rng &r, void **a) { return (void *)wickr_stream_key_create_user_data(A(cipher_key, 0), A(buffer, 1), evos(r), A(buffer, 2)); } },
        { "stream_ctx_create", { "stream_key" }, "stream_ctx", [](Rng &r, void **a) { return (void *)wickr_stream_ctx_create(E, A(stream_key, 0), r.chance(1, 2) ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE); } },
        { "transport_packet_create", { "buffer" }, "transport_packet", [](Rng &r, void **a) { wickr_transport_packet_meta_t m; memset(&m, 0, sizeof m); if (r.chance(1, 2)) wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521); else wickr_transport_packet_meta_initialize_data(&m, gen_u64(r), TRANSPORT_MAC_TYPE_AUTH_CIPHER); return (void *)wickr_transport_packet_create(m, A(buffer, 0)); } },
        { "transport_root_key_create", { "buffer" }, "transport_root_key", [](Rng &r, void **a) { return (void *)wickr_transport_root_key_create(A(buffer, 0), ciph(r), (uint32_t)r.u64(), (uint32_t)r.u64()); } },
        { "transport_handshake_res_create", { "stream_key", "stream_key" }, "transport_handshake_res", [](Rng &, void **a) { return (void *)wickr_transport_handshake_res_create(A(stream_key, 0), A(stream_key, 1)); } },
        { "transport_handshake_create", { "identity_chain", "identity_chain" }, "transport_handshake", [](Rng &r, void **a) { return (void *)wickr_transport_handshake_create(E, A(identity_chain, 0), A(identity_chain, 1), r.chance(1, 8) ? NULL : k_ident, evos(r), NULL); } },
        { "transport_ctx_create", { "identity_chain", "identity_chain" }, "transport_ctx", [](Rng &r, void **a) { return (void *)wickr_transport_ctx_create(E, A(identity_chain, 0), A(identity_chain, 1), evos(r), t_cb(), NULL); } },
        { "ctx_create", { "dev_info", "identity_chain", "storage_keys" }, "ctx", [](Rng &, void **a) { return (void *)wickr_ctx_create(E, A(dev_info, 0), A(identity_chain, 1), A(storage_keys, 2)); } },
        { "ctx_create_from_buffer", { "dev_info" }, "ctx", [](Rng &r, void **a) { Bytes b = g_ctx_bufs[r.below(g_ctx_bufs.size())]; if (r.chance(1, 2)) b = mutate(r, b); View w(b); return (void *)wickr_ctx_create_from_buffer(E, A(dev_info, 0), r.chance(1, 10) ? NULL : &w); } },
        { "ctx_import", { "dev_info" }, "ctx", [](Rng &r, void **a) { Bytes b = g_ctx_exports[r.below(g_ctx_exports.size())]; if (r.chance(1, 3)) b = mutate(r, b); View w(b), p(r.chance(1, 4) ? r.bytes(5) : g_pass); return (void *)wickr_ctx_import(E, A(dev_info, 0), r.chance(1, 10) ? NULL : &w, r.chance(1, 10) ? NULL : &p); } },
        { "ctx_packet_create", { "packet", "identity_chain", "parse_result" }, "ctx_packet", [](Rng &, void **a) { return (void *)wickr_ctx_packet_create(A(packet, 0), A(identity_chain, 1), A(parse_result, 2)); } },
    };
}
static void ownership(Rng &r, const Cons &c)
{
    std::vector<Obj> args;
    unsigned mask = r.chance(1, 2) ? 0 : (unsigned)r.below(16);
    std::string sh;
    void *a[4] = { NULL, NULL, NULL, NULL };
    for (size_t i = 0; i < c.args.size(); i++) {
        if (mask >> i & 1) { args.push_back({ -1, nullptr, 0, "" }); sh += "-"; continue; }
        // chains of real accounts where the operation computes with them
        args.push_back(make(r, KI[c.args[i]]));
        a[i] = args.back().p;
        sh += "x";
    }
    std::vector<uint64_t> live;
    for (auto &o : args) live.push_back(o.tag ? L.live[o.tag] : 0);
    Obj res{ KI[c.res], nullptr, ++g_tag, "" };
    mon().reset();
    bool fault = r.chance(1, 3);
    if (fault) { mon().fail_at = (int64_t)r.below(4); mon().fail_persistent = r.chance(1, 2); }
    { Owner w(res.tag); res.p = c.call(r, a); }
    uint64_t failed = mon().failed;
    mon().reset();
    if (!res.p) {
        for (size_t i = 0; i < args.size(); i++) if (args[i].p) {
            EXPECT(L.live[args[i].tag] == live[i], fmt("taken-on-failure:%s", c.name), "%s fails (%s) but frees its argument %zu", c.name, sh.c_str(), i);
            if (L.live[args[i].tag] != live[i]) continue;
            same_as(args[i], "by a failing operation");
            kill(args[i], {}, c.name);
        }
        EXPECT(L.live[res.tag] == 0, fmt("left-on-failure:%s", c.name), "%s fails (%s) and leaves %u blocks allocated", c.name, sh.c_str(), L.live[res.tag]);
        L.live[res.tag] = 0;
        ev("ownership_kept");
        if (failed) ev("ownership_kept_on_fault");
    } else {
        std::vector<uint32_t> tags;
        std::string d = K[res.k].dmp(res.p);
        for (auto &o : args) if (o.p) {
            tags.push_back(o.tag);
            EXPECT(d.find(o.d) != std::string::npos, fmt("argument-lost:%s", c.name), "the result of %s does not hold an argument given to it (%s)", c.name, sh.c_str());
        }
        kill(res, tags, c.name);
        ev("ownership_taken");
    }
    distinct(fmt("own %s %s %d", c.name, sh.c_str(), res.p != nullptr || failed));
}

// arrays: items given with and without copying, shallow and deep copies
static void arrays(Rng &r)
{
    uint32_t n = (uint32_t)r.range(1, 5);
    bool ex = r.chance(1, 2);
    int ik = KI[ex ? "key_exchange" : "node"];
    Obj arr{ KI[ex ? "exchange_array" : "node_array"], nullptr, ++g_tag, "" };
    { Owner w(arr.tag); arr.p = ex ? wickr_exchange_array_new(n) : wickr_node_array_new(n); }
    REQUIRE(arr.p, "not-made:array", "an array of %u could not be made", n);
    auto *x = (wickr_array_t *)arr.p;
    EXPECT(wickr_array_get_item_count(x) == n, "array-size", "an array of %u reports %u", n, wickr_array_get_item_count(x));
    std::vector<std::string> want(n, "NULL");
    std::vector<uint32_t> taken;
    for (int i = 0; i < 8; i++) {
        uint32_t j = (uint32_t)r.below(n + 2);
        bool cp = r.chance(1, 2);
        Obj it = make(r, ik);
        bool empty = j < n && want[j] == "NULL";
        if (!cp && j < n && !empty) { kill(it); continue; }     // (an array does not own an item it is given while it still has one there)
        bool ok;
        { Owner w(arr.tag); ok = wickr_array_set_item(x, j, it.p, cp); }
        EXPECT(ok == (j < n), "array-bounds", "setting item %u of %u gives %d", j, n, ok);
        if (!ok || cp) { same_as(it, "by being put into an array"); }
        if (ok) want[j] = it.d;
        if (!ok || cp) kill(it); else taken.push_back(it.tag);
    }
    for (uint32_t j = 0; j < n + 2; j++) {
        void *p = wickr_array_fetch_item(x, j, false);
        EXPECT((p != NULL) == (j < n && want[j] != "NULL"), "array-fetch", "item %u of %u", j, n);
        if (p) EXPECT(K[ik].dmp(p) == want[j], "array-fetch", "item %u of an array is not what was put there", j);
        Obj c{ ik, nullptr, ++g_tag, "" };
        { Owner w(c.tag); c.p = wickr_array_fetch_item(x, j, true); }
        EXPECT((c.p != NULL) == (p != NULL), "array-fetch", "copied item %u of %u", j, n);
        if (c.p) { EXPECT(c.p != p && K[ik].dmp(c.p) == want[j], "array-fetch", "a fetched copy differs"); scribble(r, c); EXPECT(K[ik].dmp(p) == want[j], "array-fetch", "a fetched copy is shared"); kill(c); }
    }
    arr.d = K[arr.k].dmp(arr.p);
    // a shallow copy shares the items and leaves them alone when it goes without them
    {
        wickr_array_t *s;
        uint32_t t = ++g_tag;
        { Owner w(t); s = wickr_array_copy(x, false); }
        REQUIRE(s, "array-shallow", "an array can not be copied without its items");
        EXPECT(K[arr.k].dmp(s) == arr.d, "array-shallow", "a shallow copy differs");
        for (uint32_t j = 0; j < n; j++) EXPECT(wickr_array_fetch_item(s, j, false) == wickr_array_fetch_item(x, j, false), "array-shallow", "a shallow copy has other items");
        { Owner w(t); wickr_array_destroy(&s, false); }
        EXPECT(!s && L.live[t] == 0, "array-shallow", "a shallow copy leaves %u blocks", L.live[t]);
    }
    same_as(arr, "by shallow copies");
    Obj d{ arr.k, nullptr, ++g_tag, "" };
    { Owner w(d.tag); d.p = wickr_array_copy(x, true); }
    REQUIRE(d.p, "copy-failed:array", "an array can not be copied");
    d.d = K[d.k].dmp(d.p);
    EXPECT(d.d == arr.d, "copy-differs:array", "the copy of an array differs");
    if (r.chance(1, 2)) { kill(arr, taken); same_as(d, "when its original was destroyed"); kill(d); }
    else { kill(d); same_as(arr, "when its copy was destroyed"); kill(arr, taken); }
    ev("arrays");
}
// replacing the ephemeral key of a device
static void rotations(Rng &r)
{
    Obj n = make(r, KI["node"]), k = make(r, KI["ephemeral_keypair"]);
    auto *x = (wickr_node_t *)n.p;
    bool cp = r.chance(1, 2), none_ = r.chance(1, 5);
    bool ok;
    { Owner w(n.tag); ok = wickr_node_rotate_keypair(x, none_ ? NULL : (wickr_ephemeral_keypair_t *)k.p, cp); }
    EXPECT(ok == !none_, "rotate", "replacing an ephemeral key gives %d", ok);
    if (!ok) { same_as(n, "by a refused replacement"); kill(k); kill(n); return; }
    EXPECT(dump(x->ephemeral_keypair) == k.d, "rotate", "a device does not have the key it was given");
    EXPECT((x->ephemeral_keypair == k.p) == !cp, "rotate", "copy %d", cp);
    if (cp) { k.p && (((wickr_ephemeral_keypair_t *)k.p)->ec_key->pub_data->bytes[0] ^= 1); k.d = K[k.k].dmp(k.p); EXPECT(dump(x->ephemeral_keypair) != k.d, "rotate", "a device shares the key it should have copied"); kill(k); kill(n); }
    else kill(n, { k.tag });
    ev("rotations");
}
// removing the private part of a key pair gives back what it no longer holds, and leaves its copies alone
static void publics(Rng &r)
{
    Obj k = make(r, KI["ephemeral_keypair"]);
    auto *x = (wickr_ephemeral_keypair_t *)k.p;
    bool copied = r.chance(1, 2);
    Obj d{ k.k, nullptr, ++g_tag, "" };
    if (copied) { Owner w(d.tag); d.p = wickr_ephemeral_keypair_copy(x); }
    if (copied) { REQUIRE(d.p, "copy-failed:ephemeral_keypair", "an ephemeral key pair can not be copied"); d.d = K[d.k].dmp(d.p); }
    for (int i = 0, n = (int)r.range(1, 2); i < n; i++) { Owner w(k.tag); wickr_ephemeral_keypair_make_public(x); }
    EXPECT(!x->ec_key->pri_data, "still-private", "the private part is still there");
    k.d = K[k.k].dmp(k.p);
    if (copied) { same_as(d, "by making its original public"); if (r.chance(1, 2)) { kill(d); same_as(k, "when its copy was destroyed"); kill(k); } else { kill(k); same_as(d, "when its original was destroyed"); kill(d); } }
    else kill(k);
    ev("made_public");
}
// stream references
static void references(Rng &r)
{
    Obj s = make(r, KI["stream_ctx"]);
    auto *x = (wickr_stream_ctx_t *)s.p;
    int refs = (int)r.below(4);
    for (int i = 0; i < refs; i++) EXPECT(wickr_stream_ctx_ref_up(x), "references", "a stream can not be referenced");
    uint64_t live = L.live[s.tag];
    for (int i = 0; i < refs; i++) {
        auto *y = x;
        { Owner w(s.tag); wickr_stream_ctx_destroy(&y); }
        EXPECT(L.live[s.tag] == live, "references", "a stream with %d references left is freed", refs - i);
        if (L.live[s.tag] != live) throw CaseAbort();
        same_as(s, "by giving up a reference");
    }
    EXPECT(!wickr_stream_ctx_ref_up(NULL), "references", "a reference to nothing");
    // a copy is an object of its own, whatever references the original has
    if (r.chance(1, 2)) {
        wickr_stream_ctx_ref_up(x);
        Obj c{ s.k, nullptr, ++g_tag, "" };
        { Owner w(c.tag); c.p = wickr_stream_ctx_copy(x); }
        REQUIRE(c.p, "copy-failed:stream_ctx", "a referenced stream can not be copied");
        kill(c, {}, "destroying a copy of a referenced");
        auto *y = x;
        wickr_stream_ctx_destroy(&y);
    }
    kill(s);
    ev("references");
}

// ------------------------------------------------------------------ originals and copies in use
static void use_ctx(Rng &r)
{
    Actor &A_ = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    auto orig = own(wickr_ctx_copy(A_.ctx()));
    REQUIRE(orig, "copy-failed:ctx", "a context can not be copied");
    orig->pkt_enc_version = (uint8_t)r.range(2, 4);
    auto copy = own(wickr_ctx_copy(orig.get()));
    REQUIRE(copy, "copy-failed:ctx", "a context can not be copied");
    EXPECT(dump(copy.get()) == dump(orig.get()), "copy-differs:ctx", "the copy of a context differs");
    PayloadSpec ps = gen_payload(r, 500);
    auto pl = make_payload(ps);
    View text(r.bytes(r.range(1, 60))), pass(r.bytes(8));
    auto local = own(wickr_ctx_cipher_local(orig.get(), text)), remote = own(wickr_ctx_cipher_remote(orig.get(), text));
    auto exported = own(wickr_ctx_export(orig.get(), pass));
    auto to = nodes_for({ &A_, &B_ });
    auto sealed = own(wickr_ctx_encode_packet(orig.get(), pl.get(), to.get()));
    REQUIRE(local && remote && exported && sealed, "not-made:use", "an operation of a context failed");
    auto sb = own(wickr_packet_serialize(sealed->packet));
    auto run = [&](wickr_ctx_t *x) {
        std::string s;
        auto e = own(wickr_ctx_encode_packet(x, pl.get(), to.get()));
        s += e ? fmt("v%u n%zu;", e->packet->version, e->packet->content->length) : "refused;";
        if (e) {
            auto b = own(wickr_packet_serialize(e->packet));
            auto p = own(wickr_ctx_parse_packet(B_.ctx(), b.get(), A_.pub.get()));
            auto d = own(p ? wickr_ctx_decode_packet(B_.ctx(), p.get(), B_.eph->ec_key) : NULL);
            s += d ? fmt("%d", (int)d->err) + dump(d->decrypted_payload) : "unopened";
        }
        auto p = own(wickr_ctx_parse_packet(x, sb.get(), A_.pub.get()));
        auto d = own(p ? wickr_ctx_decode_packet(x, p.get(), A_.eph->ec_key) : NULL);
        s += d ? fmt("%d", (int)d->err) + dump(d.get()) : "unopened";
        s += B(own(wickr_ctx_decipher_local(x, local.get()))) == Bytes(text.b.bytes, text.b.bytes + text.b.length) ? "L" : "-";
        s += B(own(wickr_ctx_decipher_remote(x, remote.get()))) == Bytes(text.b.bytes, text.b.bytes + text.b.length) ? "R" : "-";
        auto k = own(wickr_ctx_ephemeral_keypair_gen(x, 7));
        s += k && wickr_ephemeral_keypair_verify_owner(k.get(), &W.e, A_.dev.chain()->node) ? "K" : "-";
        s += dump(own(wickr_ctx_serialize(x)).get());
        return s;
    };
    std::string a = run(orig.get());
    if (r.chance(1, 2)) orig.reset();
    std::string b = run(copy.get());
    EXPECT(a == b, "copy-behaves:ctx", "a context and its copy behave differently: %.300s / %.300s", a.c_str(), b.c_str());
    ev("twins_ctx");
}
static void use_stream(Rng &r)
{
    uint32_t ppe = (uint32_t)r.pick({ 1, 2, 3, 16 });
    auto key = own(wickr_stream_key_create_rand(W.e, CIPHER_AES256_GCM, ppe));
    REQUIRE(key, "not-made:stream_key", "no stream key");
    auto enc = own(wickr_stream_ctx_create(W.e, wickr_stream_key_copy(key.get()), STREAM_DIRECTION_ENCODE));
    auto dec = own(wickr_stream_ctx_create(W.e, wickr_stream_key_copy(key.get()), STREAM_DIRECTION_DECODE));
    REQUIRE(enc && dec, "not-made:stream", "no stream");
    uint64_t seq = 0, n = r.below(3 * ppe + 2);
    for (uint64_t i = 0; i < n; i++) {
        seq += r.chance(1, 5) ? r.range(1, ppe + 2) : 1;
        View d(r.bytes(10));
        auto c = own(wickr_stream_ctx_encode(enc.get(), d, NULL, seq));
        REQUIRE(c, "not-made:stream", "a packet is not encoded");
        auto p = own(wickr_stream_ctx_decode(dec.get(), c.get(), NULL, seq));
        REQUIRE(p, "not-made:stream", "a packet is not decoded");
    }
    auto enc2 = own(wickr_stream_ctx_copy(enc.get())), dec2 = own(wickr_stream_ctx_copy(dec.get()));
    REQUIRE(enc2 && dec2, "copy-failed:stream_ctx", "a stream can not be copied");
    EXPECT(dump(enc2.get()) == dump(enc.get()) && dump(dec2.get()) == dump(dec.get()), "copy-differs:stream_ctx", "the copy of a stream differs");
    uint64_t plan = r.u64();
    auto run = [&](wickr_stream_ctx_t *e, wickr_stream_ctx_t *d) {
        Rng q(plan);
        uint64_t s = seq;
        std::string o;
        for (int i = 0; i < 8; i++) {
            uint64_t at = q.chance(1, 6) ? q.below(s + 1) : s + (q.chance(1, 5) ? q.range(1, ppe + 2) : 1);
            View t(q.bytes(12)), aad(q.bytes(5));
            auto c = own(wickr_stream_ctx_encode(e, t, q.chance(1, 2) ? &aad : NULL, at));
            o += c ? "E" : "e";
            if (!c) { (void)q.below(2); continue; }
            s = at;
            auto p = own(wickr_stream_ctx_decode(d, c.get(), NULL, at));
            if (!p) p = own(wickr_stream_ctx_decode(d, c.get(), aad, at));
            o += p ? hex(B(p)) : "d";
        }
        return o + fmt(" %" PRIu64 " %" PRIu64, e->last_seq, d->last_seq);
    };
    std::string a = run(enc.get(), dec.get());
    if (r.chance(1, 2)) { enc.reset(); dec.reset(); }
    std::string b = run(enc2.get(), dec2.get());
    EXPECT(a == b, "copy-behaves:stream_ctx", "a stream and its copy behave differently: %s / %s", a.c_str(), b.c_str());
    ev("twins_stream");
}
static std::unique_ptr<Endpoint> fork(const Endpoint &x)
{
    std::unique_ptr<Endpoint> y(new Endpoint);
    y->name = x.name; y->e = x.e; y->tx = x.tx; y->tx_taken = x.tx_taken; y->policy = x.policy; y->pending = x.pending;
    y->rx = x.rx; y->states = x.states; y->verify = x.verify; y->verify_priv = x.verify_priv; y->trace = x.trace;
    y->t = own(wickr_transport_ctx_copy(x.t.get()));
    REQUIRE(y->t, "copy-failed:transport_ctx", "a transport can not be copied (state %d)", x.status());
    EXPECT(dump(y->t.get()) == dump(x.t.get()), "copy-differs:transport_ctx", "the copy of a transport differs");
    wickr_transport_ctx_set_user_ctx(y->t.get(), y.get());
    return y;
}
static void script(Rng &q, Endpoint &a, Endpoint &z, int n)
{
    for (int i = 0; i < n; i++) {
        bool f = q.chance(1, 2);
        Endpoint &x = f ? a : z, &y = f ? z : a;
        switch (q.below(12)) {
            case 0: if (x.status() == TRANSPORT_STATUS_NONE || q.chance(1, 12)) x.start(); break;
            case 1: case 2: case 3: case 4: if (x.has_tx()) y.feed(x.take()); break;
            case 5: case 6: case 7: x.send(q.bytes(q.range(1, 40))); break;
            case 8: x.decide(true); break;
            case 9: if (q.chance(1, 12)) x.decide(false); break;
            case 10: if (q.chance(1, 15)) x.feed(tame(q.bytes(q.range(1, 40)))); break;
            default: pump(a, z, 6);
        }
    }
    pump(a, z, 20);
}
static std::string outcome(Endpoint &x)
{
    std::string s = fmt("%d/%d tx%zu ", x.status(), x.error(), x.tx.size());
    for (auto &t : x.trace) s += t + " ";
    for (auto &b : x.rx) s += hex(b) + ",";
    for (auto &b : x.verify) s += fmt("%" PRIx64, fnv(b.data(), b.size()));
    auto *c = wickr_transport_ctx_get_remote_identity_ptr(x.t.get());
    s += dump(c);
    return s;
}
static void use_transport(Rng &r)
{
    Actor &A_ = W[r.below(W.size())], &Z_ = W[r.below(W.size())];
    uint32_t evo = (uint32_t)r.pick({ 0, 1, 2, 5 });
    auto a = make_ep("a", W.e, A_.dev.chain(), r.chance(1, 2) ? Z_.pub.get() : NULL, evo), z = make_ep("z", W.e, Z_.dev.chain(), r.chance(1, 2) ? A_.pub.get() : NULL, evo);
    for (auto *x : { a.get(), z.get() }) if (r.chance(1, 2)) x->policy = Endpoint::DEFER;
    // anywhere from before the handshake to well after it
    int at = (int)r.below(6);
    if (at >= 1) a->start();
    if (at >= 2 && a->has_tx()) z->feed(a->take());
    if (at >= 3) { z->decide(true); if (z->has_tx()) a->feed(z->take()); }
    if (at >= 4) { a->decide(true); pump(*a, *z); z->decide(true); pump(*a, *z); }
    if (at >= 5) script(r, *a, *z, 10);
    distinct(fmt("fork a%d z%d", a->status(), z->status()));
    ev(fmt("fork_%d_%d", a->status(), z->status()).c_str());
    auto a2 = fork(*a), z2 = fork(*z);
    if (r.chance(1, 3)) { auto a3 = fork(*a2); a2 = std::move(a3); }
    uint64_t plan = r.u64(), rnd = r.u64();
    { Rng q(plan); rand_seed(rnd); script(q, *a, *z, 30); }
    std::string o1 = outcome(*a), o2 = outcome(*z);
    if (r.chance(1, 2)) { a.reset(); z.reset(); }
    { Rng q(plan); rand_seed(rnd); script(q, *a2, *z2, 30); }
    EXPECT(outcome(*a2) == o1, "copy-behaves:transport_ctx", "a transport (copied at step %d) and its copy behave differently: %.300s / %.300s", at, o1.c_str(), outcome(*a2).c_str());
    EXPECT(outcome(*z2) == o2, "copy-behaves:transport_ctx", "a transport (answering, copied at step %d) and its copy behave differently: %.300s / %.300s", at, o2.c_str(), outcome(*z2).c_str());
    if (a2->status() == TRANSPORT_STATUS_ACTIVE && z2->status() == TRANSPORT_STATUS_ACTIVE) ev("twins_active");
    ev("twins_transport");
}
// an answering endpoint or its copy tells an independent initiator the same key evolution interval
static void use_interval(Rng &r)
{
    Actor &A_ = W[r.below(W.size())], &Z_ = W[r.below(W.size())];
    uint32_t evo = (uint32_t)r.pick({ 0, 1, 2, 7, 511, 513, 32768 });
    auto a = make_ep("a", W.e, A_.dev.chain(), NULL, evo);
    ref::Peer p;
    p.me = ref_chain(Z_.dev.chain());
    if (r.chance(1, 2)) a->policy = Endpoint::DEFER;
    int at = (int)r.below(3);
    auto go = [&](int step) { if (at == step) a = fork(*a); };
    go(0);
    Bytes s = p.start(r, true);
    a->feed(s);
    if (a->policy == Endpoint::DEFER) { go(1); a->decide(true); }
    REQUIRE(a->tx.size() == 1 && p.finish(a->tx[0]), "copy-behaves:transport_ctx", "the answer of a transport copied at step %d is not accepted by an independent initiator", at);
    uint32_t want = evo ? evo : PACKET_PER_EVO_DEFAULT;
    EXPECT(p.ppe_send == want && p.ppe_recv == want, "copy-behaves:transport_ctx", "a transport set to evolve keys every %u packets, copied at step %d, announces %" PRIu64 "/%" PRIu64, want, at, p.ppe_send, p.ppe_recv);
    go(2);
    for (int i = 0; i < 12; i++) {
        Bytes m = r.bytes(r.range(1, 30)), got;
        if (r.chance(1, 2)) { a->send(m); EXPECT(a->has_tx() && p.recv(a->tx.back(), got) && got == m, "copy-behaves:transport_ctx", "data sent after copying (step %d) is not readable", at); }
        else { size_t n = a->rx.size(); a->feed(p.send(r, m, p.tx_seq + 1)); EXPECT(a->rx.size() == n + 1 && a->rx.back() == m, "copy-behaves:transport_ctx", "data is not received after copying (step %d)", at); }
        if (a->status() != TRANSPORT_STATUS_ACTIVE) break;
    }
    ev("twins_interval");
}
static void use_handshake(Rng &r)
{
    Actor &A_ = W[r.below(W.size())], &Z_ = W[r.below(W.size())];
    auto mkh = [&](Actor &x, Actor &y) { auto h = own(wickr_transport_handshake_create(W.e, wickr_identity_chain_copy(x.dev.chain()), r.chance(1, 2) ? wickr_identity_chain_copy(y.pub.get()) : NULL, k_ident, 7, NULL)); REQUIRE(h, "not-made:handshake", "no handshake"); return h; };
    auto a = mkh(A_, Z_), z = mkh(Z_, A_);
    int at = (int)r.below(4);
    typedef H<wickr_transport_packet_t> P;
    // one side's move: process, then approve if asked to
    auto move = [](wickr_transport_handshake_t *h, const wickr_transport_packet_t *p) {
        auto o = own(wickr_transport_handshake_process(h, p));
        if (wickr_transport_handshake_get_status(h) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) o = own(wickr_transport_handshake_verify_identity(h, true));
        return o;
    };
    P m;
    auto steps = [&](wickr_transport_handshake_t *x, wickr_transport_handshake_t *y, P &p, int from, int to) {
        for (int i = from; i < to; i++) {
            if (i == 0) p = own(wickr_transport_handshake_start(x));
            else if (i == 1) p = move(y, p.get());
            else if (i == 2) p = move(x, p.get());
        }
    };
    steps(a.get(), z.get(), m, 0, at);
    auto a2 = own(wickr_transport_handshake_copy(a.get())), z2 = own(wickr_transport_handshake_copy(z.get()));
    REQUIRE(a2 && z2, "copy-failed:transport_handshake", "a handshake can not be copied at step %d", at);
    EXPECT(dump(a2.get()) == dump(a.get()) && dump(z2.get()) == dump(z.get()), "copy-differs:transport_handshake", "the copy of a handshake differs at step %d", at);
    auto m2 = own(m ? wickr_transport_packet_copy(m.get()) : NULL);
    auto run = [&](H<wickr_transport_handshake_t> &x, H<wickr_transport_handshake_t> &y, P &p) {
        steps(x.get(), y.get(), p, at, 3);
        std::string s = fmt("%d %d ", (int)wickr_transport_handshake_get_status(x.get()), (int)wickr_transport_handshake_get_status(y.get()));
        auto f = own(wickr_transport_handshake_finalize(x.get())), g = own(wickr_transport_handshake_finalize(y.get()));
        s += f ? "F" : "-"; s += g ? "G" : "-";
        if (f && g) {
            bool ok = dump(wickr_transport_handshake_res_get_local_key(f.get())) == dump(wickr_transport_handshake_res_get_remote_key(g.get())) && dump(wickr_transport_handshake_res_get_remote_key(f.get())) == dump(wickr_transport_handshake_res_get_local_key(g.get()));
            s += ok ? " agree" : " differ";
            auto c = own(wickr_transport_handshake_res_copy(f.get()));
            EXPECT(c && dump(c.get()) == dump(f.get()), "copy-differs:transport_handshake_res", "the copy of a handshake's result differs");
        }
        return s;
    };
    std::string s1 = run(a, z, m);
    sample("handshake copied at step " + std::to_string(at) + ": " + s1);
    if (r.chance(1, 2)) { a.reset(); z.reset(); }
    std::string s2 = run(a2, z2, m2);
    EXPECT(s1 == s2, "copy-behaves:transport_handshake", "a handshake and its copy, made at step %d, end differently: %s / %s", at, s1.c_str(), s2.c_str());
    if (s1.find("agree") != std::string::npos) ev("twins_handshake_agreed");
    ev("twins_handshake");
}
static void use_values(Rng &r)
{
    // keys, signatures, results: a copy does what the original does
    auto k = own(W.e.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
    auto k2 = own(wickr_ec_key_copy(k.get()));
    REQUIRE(k && k2, "copy-failed:ec_key", "a key can not be copied");
    View d(r.bytes(30));
    auto s = own(W.e.wickr_crypto_engine_ec_sign(k2.get(), d, dig(r)));
    auto s2 = own(wickr_ecdsa_result_copy(s.get()));
    EXPECT(s2 && W.e.wickr_crypto_engine_ec_verify(s2.get(), k.get(), d), "copy-behaves:ec_key", "a signature made with a copied key does not verify");
    auto o = own(wickr_ec_key_copy(W[r.below(W.size())].eph->ec_key));
    auto x1 = own(W.e.wickr_crypto_engine_gen_shared_secret(k.get(), o.get())), x2 = own(W.e.wickr_crypto_engine_gen_shared_secret(k2.get(), o.get()));
    EXPECT(x1 && x2 && same(x1.get(), x2.get()), "copy-behaves:ec_key", "a copied key agrees on another secret");
    // key agreement ciphers
    auto m1 = own(wickr_kdf_meta_create(KDF_HKDF_SHA512, buf(r), buf(r)));
    auto m2 = own(wickr_kdf_meta_copy(m1.get()));
    auto c1 = own(wickr_ecdh_cipher_ctx_create_key(W.e, wickr_ec_key_copy(k.get()), CIPHER_AES256_GCM));
    auto c2 = own(wickr_ecdh_cipher_ctx_copy(c1.get()));
    auto p = own(wickr_ecdh_cipher_ctx_create_key(W.e, wickr_ec_key_copy(o.get()), CIPHER_AES256_GCM));
    REQUIRE(c2 && m2 && p, "copy-failed:ecdh_cipher_ctx", "a key agreement cipher can not be copied");
    for (auto *c : { c1.get(), c2.get() }) {
        auto e = own(wickr_ecdh_cipher_ctx_cipher(c, d, o.get(), m1.get()));
        auto b = own(e ? wickr_ecdh_cipher_ctx_decipher(p.get(), e.get(), k.get(), m2.get()) : NULL);
        EXPECT(b && same(b.get(), d), "copy-behaves:ecdh_cipher_ctx", "what a key agreement cipher sealed is not opened");
        auto e2 = own(wickr_ecdh_cipher_ctx_cipher(p.get(), d, k.get(), m2.get()));
        auto b2 = own(e2 ? wickr_ecdh_cipher_ctx_decipher(c, e2.get(), o.get(), m1.get()) : NULL);
        EXPECT(b2 && same(b2.get(), d), "copy-behaves:ecdh_cipher_ctx", "what was sealed for a key agreement cipher is not opened");
    }
    // chains and devices keep their standing
    Actor &A_ = W[r.below(W.size())];
    auto ch = own(wickr_identity_chain_copy(A_.pub.get()));
    auto n = own(wickr_node_copy(A_.node.get()));
    EXPECT(wickr_identity_chain_validate(ch.get(), &W.e) && wickr_node_verify_signature_chain(n.get(), &W.e), "copy-behaves:node", "a copied device is not valid");
    auto n2 = own(wickr_node_copy(n.get()));
    EXPECT(n2 && dump(n2.get()) == dump(n.get()) && wickr_node_verify_signature_chain(n2.get(), &W.e), "copy-behaves:node", "a copied device is not valid");
    n.reset();
    EXPECT(wickr_node_verify_signature_chain(n2.get(), &W.e), "copy-behaves:node", "a copied device is not valid once its original is gone");
    ev("twins_values");
}

void prop_init()
{
    Rng r(g_seed * 131 + 27);
    E = mon_engine();
    W.build(r, 4, E);
    kinds();
    consumers();
    g_pass = r.bytes(9);
    for (size_t i = 0; i < W.size(); i++) {
        g_ctx_bufs.push_back(B(own(wickr_ctx_serialize(W[i].ctx()))));
        auto p = mk(g_pass);
        g_ctx_exports.push_back(B(own(wickr_ctx_export(W[i].ctx(), p.get()))));
    }
    if (!memhook_install()) { fprintf(stderr, "harness: no allocation hooks\n"); exit(3); }
    t_ledger = &L;
}
void prop_case(uint64_t k, Rng &r)
{
    L.start();
    g_tag = 0;
    switch (k % 4) {
        case 0: history(r); break;
        case 1: for (int i = 0; i < 24; i++) ownership(r, C[(k / 4 * 24 + i) % C.size()]); break;
        case 2: switch (k / 4 % 3) { case 0: arrays(r); rotations(r); publics(r); references(r); break; case 1: history(r); break; default: use_values(r); use_handshake(r); } break;
        default: switch (k / 4 % 3) { case 0: use_ctx(r); break; case 1: use_stream(r); break; default: use_transport(r); use_interval(r); }
    }
}
void prop_fini() {}
} // namespace v
