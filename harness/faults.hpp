// Running every operation and whole conversations with one call beneath the library refused. The harness that includes this defines
// what is refused: it calls refuse(what, size) from its stand-ins, and says in may_succeed() when success is acceptable.
#include "../ops.hpp"
#include "kinds.hpp"
#include <dirent.h>
#include <unistd.h>
namespace v {
struct Mem { bool on = false; uint64_t count = 0, failed = 0; int64_t at = -1; bool good = false; size_t size = 0; const char *what = ""; uint64_t verified = 0; };
static uint64_t VERIFIED;      // signatures an operation verifies when nothing is refused
static thread_local Mem M;
static bool refuse(const char *what, size_t n)
{
    if (!M.on || v::g_harness_depth) return false;
    uint64_t i = M.count++;
    if (M.at < 0 || (M.good ? i < (uint64_t)M.at : i != (uint64_t)M.at)) return false;
    if (!M.failed) { M.size = n; M.what = what; }
    M.failed++;
    return true;
}
struct Refuse { Refuse(int64_t at, bool good) { M = Mem(); M.at = at; M.good = good; M.on = true; } ~Refuse() { M.on = false; } };
static bool may_succeed(const Oc &o, const std::string &wrong);      // (success although something was refused)
static bool may_ignore(int status);                                   // (a transport that goes on)
static const char *UNIT;                                              // what is refused, in words

static void one_fault(const Mk &mkop, uint64_t seed, uint64_t at, bool good)
{
    Rng r(seed);
    Oc o = mkop(r);
    std::string before = o.in();
    bool ok;
    { Refuse f((int64_t)at, good); ok = o.call(); }
    if (!M.failed) return;
    ev("refused");
    ev(good ? "refused_for_good" : "refused_once");
    distinct(fmt("%s %" PRIu64 " %d %d", o.name, at, good, ok));
    auto what = [&] { return fmt("%s when %s %" PRIu64 " (%s, %zu bytes) %s refused", o.name, UNIT, at, M.what, M.size, good ? "and all later ones are" : "is"); };
    if (getenv("DBG31")) fprintf(stderr, "%s ok=%d\n", what().c_str(), ok);
    if (ok) {
        std::string w = o.check();
        EXPECT(may_succeed(o, w), fmt("success:%s", o.name), "%s reports success%s%s", what().c_str(), w.empty() ? "" : " and gives ", w.c_str());
        ev("not_needed");
        return;
    }
    EXPECT(o.in() == before, fmt("input-changed:%s", o.name), "%s changes what it was given", what().c_str());
    if (!o.retry) { EXPECT(!o.call(), fmt("revived:%s", o.name), "%s succeeds afterwards although the handshake failed", what().c_str()); ev("failed_for_good"); return; }
    bool again = o.call();
    EXPECT(again, fmt("not-again:%s", o.name), "%s fails, and does not succeed again on the same objects", what().c_str());
    if (again) { std::string w = o.check(); EXPECT(w.empty(), fmt("wrong-again:%s", o.name), "%s fails, and repeated gives %s", what().c_str(), w.c_str()); ev("succeeded_again"); }
}
static void all_faults(const Mk &mkop, uint64_t seed)
{
    uint64_t n;
    const char *name;
    {
        Rng r(seed);
        Oc o = mkop(r);
        name = o.name;
        bool ok;
        { Refuse f(-1, false); ok = o.call(); }
        n = M.count; VERIFIED = M.verified;
        REQUIRE(ok, fmt("fails:%s", name), "%s fails although nothing failed", name);
    }
    ev("operations");
    ev("calls", n);
    Rng r(seed ^ 91);
    uint64_t lim = g_thorough ? 4000 : 60;
    for (uint64_t i = 0; i < n; i++) {
        bool tail = i + 5 >= n || i < 5;
        if (n > lim && !tail && !r.chance((unsigned)lim, (unsigned)n)) continue;
        one_fault(mkop, seed, i, false);
        if (i + 1 < n && r.chance(1, 2)) one_fault(mkop, seed, i, true);
    }
    sample(fmt("%s: %" PRIu64 " calls (%s)", name, n, UNIT));
}


// ------------------------------------------------------------------ more operations: objects, primitives, files
template <class T> static Oc same_op(const char *name, std::function<T *()> f, std::function<std::string()> in)
{
    // (a deterministic operation: what it gives is what it gives with all the memory it wants)
    auto ref = own(f());
    REQUIRE(ref, "not-made", "%s fails although nothing failed", name);
    std::string want = dump(ref.get());
    return ret<T>(name, f, [want](T *x) { return is(dump(x) == want, "another result"); }, in);
}
static std::map<std::string, std::string> names_;      // (names of operations live as long as the program)
static const char *keep(const std::string &n) { return names_.emplace(n, n).first->second.c_str(); }
template <class T> static void ser_op(const char *type, T *(*make)(Rng &), wickr_buffer_t *(*ser)(const T *), T *(*parse)(const wickr_buffer_t *))
{
    const char *n1 = keep(std::string("serialize ") + type), *n2 = keep(std::string("parse ") + type);
    auto sample = [=](Rng &r) { for (int i = 0;; i++) { auto x = sh(make(r)); auto b = own(ser(x->get())); if (b && (!parse || own(parse(b.get())))) return x; REQUIRE(i < 200, "not-made", "%s: no serializable object", type); } };
    OPS.push_back([=](Rng &r) { auto x = sample(r); return same_op<wickr_buffer_t>(n1, [=] { return ser(x->get()); }, [=] { return dump(x->get()); }); });
    if (parse) OPS.push_back([=](Rng &r) { auto x = sample(r); auto b = sh(ser(x->get())); return same_op<T>(n2, [=] { return parse(b->get()); }, [=] { return dump(b->get()); }); });
}
static wickr_fingerprint_t *real_fpr(Rng &r) { return wickr_identity_get_fingerprint(any(r).dev.chain()->root, E); }
static wickr_node_t *real_node(Rng &r) { return wickr_node_copy(any(r).node.get()); }
static wickr_identity_t *real_id(Rng &r) { auto c = any(r).dev.chain(); return wickr_identity_copy(r.chance(1, 2) ? c->node : c->root); }
static wickr_identity_chain_t *real_chain(Rng &r) { return wickr_identity_chain_copy(any(r).dev.chain()); }
static wickr_ephemeral_keypair_t *real_eph(Rng &r) { return wickr_ephemeral_keypair_copy(any(r).eph.get()); }
static wickr_root_keys_t *real_roots(Rng &) { return wickr_root_keys_copy(W[0].dev.gen->root_keys); }
static wickr_packet_t *real_packet(Rng &r) { auto s = sealed(r); View b(s.bytes); return wickr_packet_create_from_buffer(b); }
static wickr_buffer_t *real_bytes(Rng &r) { return mkp(r.bytes(r.range(1, 300))); }
static Bytes slurp(const std::string &p) { Bytes o; FILE *f = fopen(p.c_str(), "rb"); if (!f) return o; char t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) o.insert(o.end(), t, t + n); fclose(f); return o; }
static std::string listing(const std::string &d) { std::string s; DIR *x = opendir(d.c_str()); std::set<std::string> n; if (x) { while (auto e = readdir(x)) n.insert(e->d_name); closedir(x); } for (auto &i : n) if (i[0] != '.') s += i + "=" + hex(slurp(d + "/" + i), 100000) + " "; return s; }
struct Scratch { std::string d; Scratch() { char t[] = "./c31.XXXXXX"; REQUIRE(mkdtemp(t), "not-made", "no scratch directory"); d = t; } ~Scratch() { for (auto n : { "src", "dst", "dst.temp", "enc" }) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); } };
static void put(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); REQUIRE(f && fwrite(b.data(), 1, b.size(), f) == b.size() && !fclose(f), "not-made", "no scratch file"); }
static void more_ops()
{
    for (auto &k : K) if (k.copy) {
        const Kind *q = &k;
        const char *n = keep(std::string("copy ") + k.name);
        OPS.push_back([q, n](Rng &r) {
            std::shared_ptr<void> x(q->make(r), [q](void *p) { if (p) q->destroy(&p); });
            REQUIRE(x, "not-made", "a %s could not be made", q->name);
            std::shared_ptr<void *> out(new void *(NULL), [q](void **p) { if (*p) q->destroy(p); delete p; });
            std::string want; { void *c = q->copy(x.get()); REQUIRE(c, "not-made", "a %s is not copied", q->name); want = q->dmp(c); q->destroy(&c); }
            Oc o; o.name = n;
            o.call = [=] { if (*out) q->destroy(out.get()); *out = q->copy(x.get()); return *out != NULL; };
            o.check = [=] { return is(q->dmp(*out) == want, "an incomplete copy"); };
            o.in = [=] { return q->dmp(x.get()); };
            return o; });
    }
    ser_op<wickr_cipher_result_t>("cipher result", cres, wickr_cipher_result_serialize, wickr_cipher_result_from_buffer);
    ser_op<wickr_cipher_key_t>("cipher key", ckey, wickr_cipher_key_serialize, wickr_cipher_key_from_buffer);
    ser_op<wickr_ecdsa_result_t>("signature", sig, wickr_ecdsa_result_serialize, wickr_ecdsa_result_create_from_buffer);
    ser_op<wickr_packet_t>("packet", real_packet, wickr_packet_serialize, wickr_packet_create_from_buffer);
    ser_op<wickr_payload_t>("payload", payl, wickr_payload_serialize, wickr_payload_create_from_buffer);
    ser_op<wickr_storage_keys_t>("storage keys", skeys, wickr_storage_keys_serialize, wickr_storage_keys_create_from_buffer);
    ser_op<wickr_stream_key_t>("stream key", [](Rng &r) { return strk(r); }, wickr_stream_key_serialize, wickr_stream_key_create_from_buffer);
    ser_op<wickr_transport_packet_t>("transport packet", tpkt, wickr_transport_packet_serialize, wickr_transport_packet_create_from_buffer);
    ser_op<wickr_kdf_meta_t>("kdf settings", kmeta, wickr_kdf_meta_serialize, wickr_kdf_meta_create_with_buffer);
    ser_op<wickr_identity_t>("identity", real_id, wickr_identity_serialize, [](const wickr_buffer_t *b) { return wickr_identity_create_from_buffer(b, &E); });
    ser_op<wickr_identity_chain_t>("identity chain", real_chain, wickr_identity_chain_serialize, NULL);
    ser_op<wickr_identity_chain_t>("private identity chain", real_chain, wickr_identity_chain_serialize_private, [](const wickr_buffer_t *b) { return wickr_identity_chain_create_from_buffer(b, &E); });
    ser_op<wickr_node_t>("device", real_node, wickr_node_serialize, NULL);
    ser_op<wickr_ephemeral_keypair_t>("ephemeral key", real_eph, wickr_ephemeral_keypair_serialize, NULL);
    ser_op<wickr_root_keys_t>("root keys", real_roots, wickr_root_keys_serialize, NULL);
    ser_op<wickr_key_exchange_set_t>("key exchange set", exset, wickr_key_exchange_set_serialize, NULL);
    ser_op<wickr_ctx_t>("context", [](Rng &r) { return wickr_ctx_copy(any(r).ctx()); }, wickr_ctx_serialize, NULL);
    ser_op<wickr_buffer_t>("base64", real_bytes, getBase64FromData, getDataFromBase64);
    ser_op<wickr_buffer_t>("hex", real_bytes, getHexStringFromData, getDataFromHexString);
    for (int i = 0; i < 4; i++) OPS.push_back([i](Rng &r) { auto f = sh(real_fpr(r)); auto m = i & 1 ? FINGERPRINT_OUTPUT_LONG : FINGERPRINT_OUTPUT_SHORT;
        return same_op<wickr_buffer_t>(i & 2 ? "fingerprint hex" : "fingerprint base32", [=] { return i & 2 ? wickr_fingerprint_get_hex(f->get(), m) : wickr_fingerprint_get_b32(f->get(), m); }, [=] { return dump(f->get()); }); });
    // buffers and arrays
    OPS.push_back([](Rng &r) { auto a = vw(r.bytes(r.range(1, 90))), b = vw(r.bytes(r.range(1, 90)));
        return same_op<wickr_buffer_t>("concat", [=] { return wickr_buffer_concat(&a->b, &b->b); }, [=] { return dump(&a->b) + dump(&b->b); }); });
    OPS.push_back([](Rng &r) { auto a = vw(r.bytes(r.range(1, 90))), b = vw(r.bytes(r.range(1, 90))); bool hole = r.chance(1, 2);
        return same_op<wickr_buffer_t>("concat many", [=] { wickr_buffer_t *p[3] = { &a->b, hole ? NULL : &b->b, &b->b }; return wickr_buffer_concat_multi(p, 3); }, [=] { return dump(&a->b) + dump(&b->b); }); });
    OPS.push_back([](Rng &r) { auto a = vw(r.bytes(r.range(9, 90)));
        return same_op<wickr_buffer_t>("copy section", [=] { return wickr_buffer_copy_section(&a->b, 3, 5); }, [=] { return dump(&a->b); }); });
    OPS.push_back([](Rng &r) { auto a = vw(r.bytes(r.range(1, 90)));
        return same_op<wickr_buffer_t>("buffer", [=] { return wickr_buffer_create(a->b.bytes, a->b.length); }, [=] { return dump(&a->b); }); });
    OPS.push_back([](Rng &r) { auto n = sh(nod(r)); auto a = std::make_shared<NodeArr>(node_array({ wickr_node_copy(n->get()) }));
        Oc o; o.name = "array: put a copy";
        o.call = [=] { return wickr_array_set_item(a->get(), 0, n->get(), true); };
        o.check = [=] { return is(dump((wickr_node_t *)wickr_array_fetch_item(a->get(), 0, false)) == dump(n->get()), "another item"); };
        o.in = [=] { return dump(n->get()) + dump_nodes(a->get()); };
        return o; });
    OPS.push_back([](Rng &r) { auto a = std::make_shared<NodeArr>(node_array({ nod(r), nod(r) }));
        return same_op<wickr_node_t>("array: take a copy", [=] { return (wickr_node_t *)wickr_array_fetch_item(a->get(), 1, true); }, [=] { return dump_nodes(a->get()); }); });
    for (int deep = 0; deep < 2; deep++) for (int ex = 0; ex < 2; ex++) OPS.push_back([deep, ex](Rng &r) {
        struct Arr { wickr_array_t *a; ~Arr() { wickr_array_destroy(&a, true); } };
        auto a = std::make_shared<Arr>();
        uint32_t n = (uint32_t)r.range(1, 4);
        a->a = ex ? wickr_exchange_array_new(n) : wickr_node_array_new(n);
        for (uint32_t i = 0; i < n; i++) if (ex) wickr_exchange_array_set_item(a->a, i, exch(r)); else wickr_node_array_set_item(a->a, i, nod(r));
        auto text = [ex](const wickr_array_t *x) { std::string s; for (uint32_t i = 0; i < wickr_array_get_item_count(x); i++) { void *p = wickr_array_fetch_item(x, i, false); s += ex ? dump((wickr_key_exchange_t *)p) : dump((wickr_node_t *)p); } return s; };
        std::string want = text(a->a);
        std::shared_ptr<wickr_array_t *> out(new wickr_array_t *(NULL), [deep](wickr_array_t **p) { wickr_array_destroy(p, deep); delete p; });
        Oc o; o.name = deep ? "array: copy with items" : "array: copy of references";
        o.call = [=] { wickr_array_destroy(out.get(), deep); *out = wickr_array_copy(a->a, deep); return *out != NULL; };
        o.check = [=] { return is(text(*out) == want && wickr_array_get_item_count(*out) == n, "an incomplete copy"); };
        o.in = [=] { return text(a->a); };
        return o; });
    // primitives
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 200))), s = vw(r.bytes(16)); auto g = dig(r); bool salted = r.chance(1, 2);
        return same_op<wickr_buffer_t>("digest", [=] { return E.wickr_crypto_engine_digest(&d->b, salted ? &s->b : NULL, g); }, [=] { return dump(&d->b) + dump(&s->b); }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 200))), s = vw(r.bytes(16)); auto g = dig(r);
        return same_op<wickr_buffer_t>("hmac", [=] { return E.wickr_crypto_engine_hmac_create(&d->b, &s->b, g); }, [=] { return dump(&d->b) + dump(&s->b); }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(r.range(1, 200))), s = vw(r.bytes(16)); auto g = dig(r); auto h = sh(E.wickr_crypto_engine_hmac_create(&d->b, &s->b, g));
        Oc o; o.name = "hmac verify"; o.call = [=] { return E.wickr_crypto_engine_hmac_verify(&d->b, &s->b, g, h->get()); }; o.in = [=] { return dump(&d->b) + dump(&s->b) + dump(h->get()); };
        return o; });
    for (int x = 0; x < 2; x++) OPS.push_back([x](Rng &r) { auto d = vw(r.bytes(64)); auto i = sh(x ? wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, mkp(r.bytes(9)), r.range(1, 255)) : wickr_kdf_meta_create(r.pick({ KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512 }), mkp(r.bytes(32)), mkp(r.bytes(7))));
        return same_op<wickr_kdf_result_t>(x ? "hkdf expand" : "hkdf", [=] { return E.wickr_crypto_kdf_meta(i->get(), &d->b); }, [=] { return dump(&d->b) + dump(i->get()); }); });
    OPS.push_back([](Rng &r) { auto d = vw(r.bytes(9)); auto a = r.pick({ KDF_SCRYPT_2_17, KDF_SCRYPT_2_19, KDF_BCRYPT_15 });
        return ret<wickr_kdf_result_t>("passphrase hash", [=] { return E.wickr_crypto_kdf_gen(a, &d->b); }, [=](wickr_kdf_result_t *k) { auto o = own(E.wickr_crypto_kdf_meta(k->meta, &d->b)); return is(o && dump(o.get()) == dump(k) && k->hash->length, "a hash that is not reproduced"); }, [=] { return dump(&d->b); }); });
    for (int c = 0; c < 2; c++) for (int dec = 0; dec < 2; dec++) OPS.push_back([c, dec](Rng &r) {
        auto k = sh(E.wickr_crypto_engine_cipher_key_random(c ? CIPHER_AES256_CTR : CIPHER_AES256_GCM)); auto t = vw(r.bytes(r.range(1, 200))), ad = vw(r.bytes(5)); auto *A_ = c ? NULL : &ad->b;
        auto in = [=] { return dump(k->get()) + dump(&t->b) + dump(&ad->b); };
        auto x = sh(E.wickr_crypto_engine_cipher_encrypt(&t->b, A_, k->get(), NULL));
        if (dec) return same_op<wickr_buffer_t>(c ? "decrypt ctr" : "decrypt gcm", [=] { return E.wickr_crypto_engine_cipher_decrypt(x->get(), A_, k->get(), !c); }, in);
        auto iv = sh(wickr_buffer_copy(x->get()->iv)); bool given = r.chance(1, 2);
        return ret<wickr_cipher_result_t>(c ? "encrypt ctr" : "encrypt gcm", [=] { return E.wickr_crypto_engine_cipher_encrypt(&t->b, A_, k->get(), given ? iv->get() : NULL); }, [=](wickr_cipher_result_t *y) { auto p = own(E.wickr_crypto_engine_cipher_decrypt(y, A_, k->get(), !c)); return is(p && same(p.get(), &t->b) && (!given || same(y->iv, iv->get())), "something that does not open"); }, in); });
    OPS.push_back([](Rng &) { return ret<wickr_ec_key_t>("random ec key", [] { return E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521); }, [](wickr_ec_key_t *k) { return good_key(k, true); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &) { return ret<wickr_cipher_key_t>("random cipher key", [] { return E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM); }, [](wickr_cipher_key_t *k) { return good_cipher_key(k); }, [] { return std::string(); }); });
    OPS.push_back([](Rng &r) { size_t n = r.range(1, 70); return ret<wickr_buffer_t>("random bytes", [n] { return E.wickr_crypto_engine_crypto_random(n); }, [n](wickr_buffer_t *b) { return is(b->length == n && (n < 12 || B(b) != Bytes(n, 0)), "not random bytes"); }, [] { return std::string(); }); });
    for (int priv = 0; priv < 2; priv++) OPS.push_back([priv](Rng &r) { auto *k = any(r).eph->ec_key; auto b = sh(wickr_buffer_copy(priv ? k->pri_data : k->pub_data));
        return same_op<wickr_ec_key_t>(priv ? "import private key" : "import public key", [=] { return E.wickr_crypto_engine_ec_key_import(b->get(), priv); }, [=] { return dump(b->get()); }); });
    OPS.push_back([](Rng &r) { auto *k = any(r).eph->ec_key; auto *q = any(r).dev.chain()->node->sig_key;
        return same_op<wickr_buffer_t>("shared secret", [=] { return E.wickr_crypto_engine_gen_shared_secret(k, q); }, [=] { return dump(k) + dump(q); }); });
    OPS.push_back([](Rng &r) { auto *k = any(r).eph->ec_key;
        return same_op<wickr_buffer_t>("fixed length public key", [=] { return wickr_ec_key_get_pubdata_fixed_len(k); }, [=] { return dump(k); }); });
    for (int w = 0; w < 3; w++) OPS.push_back([w](Rng &r) { auto *k = any(r).eph->ec_key; auto d = vw(r.bytes(30)); auto s = sh(E.wickr_crypto_engine_ec_sign(k, &d->b, DIGEST_SHA_512)); auto raw = sh(E.wickr_crypto_engine_ecdsa_to_raw(s->get()));
        auto in = [=] { return dump(k) + dump(&d->b) + dump(s->get()) + dump(raw->get()); };
        if (w == 0) return same_op<wickr_buffer_t>("signature to raw", [=] { return E.wickr_crypto_engine_ecdsa_to_raw(s->get()); }, in);
        if (w == 1) return same_op<wickr_ecdsa_result_t>("signature from raw", [=] { return E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, raw->get()); }, in);
        Oc o; o.name = "verify signature"; o.call = [=] { return E.wickr_crypto_engine_ec_verify(s->get(), k, &d->b); }; o.in = in;
        return o; });
    // files: a failed operation leaves the directory as it was
    for (int dec = 0; dec < 2; dec++) OPS.push_back([dec](Rng &r) {
        auto s = std::make_shared<Scratch>(); auto k = sh(E.wickr_crypto_engine_cipher_key_random(r.chance(1, 2) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR)); bool old = r.chance(1, 2);
        auto plain = r.bytes(r.pick({ 0, 1, 4095, 4096, 9000 }));
        std::string src = s->d + "/src", dst = s->d + "/dst", enc = s->d + "/enc";
        bool gcm = k->get()->cipher.is_authenticated;
        put(src, plain);
        if (dec) { REQUIRE(E.wickr_crypto_engine_encrypt_file(k->get(), src.c_str(), enc.c_str()), "not-made", "a file is not encrypted"); }
        if (old) put(dst, Bytes(5, 'o'));
        Oc o; o.name = dec ? "decrypt file" : "encrypt file";
        o.call = [=] { return dec ? E.wickr_crypto_engine_decrypt_file(k->get(), enc.c_str(), dst.c_str(), gcm) : E.wickr_crypto_engine_encrypt_file(k->get(), src.c_str(), dst.c_str()); };
        o.check = [=] {
            if (dec) return is(slurp(dst) == plain, "another file");
            std::string back = s->d + "/src";
            return is(E.wickr_crypto_engine_decrypt_file(k->get(), dst.c_str(), back.c_str(), gcm) && slurp(back) == plain, "a file that does not open");
        };
        o.in = [=] { return listing(s->d) + dump(k->get()); };
        return o; });
    OPS.push_back([](Rng &r) { auto s = std::make_shared<Scratch>(); put(s->d + "/src", r.bytes(r.range(1, 9000))); auto g = dig(r);
        return same_op<wickr_buffer_t>("digest of a file", [=] { FILE *f = fopen((s->d + "/src").c_str(), "rb"); auto *b = f ? E.wickr_crypto_engine_digest_file(f, g) : NULL; if (f) fclose(f); return b; }, [=] { return listing(s->d); }); });
    // making a transport or handshake
    OPS.push_back([](Rng &r) { auto *a = any(r).dev.chain(); auto *b = r.chance(1, 2) ? any(r).pub.get() : NULL;
        return ret<wickr_transport_ctx_t>("transport", [=]() -> wickr_transport_ctx_t * { auto x = own(wickr_identity_chain_copy(a)); auto y = own(b ? wickr_identity_chain_copy(b) : NULL); if (!x || (b && !y)) return NULL; auto *t = wickr_transport_ctx_create(E, x.get(), y.get(), 5, t_cb(), NULL); if (t) { x.release(); y.release(); } return t; },
            [=](wickr_transport_ctx_t *t) { return is(wickr_transport_ctx_get_status(t) == TRANSPORT_STATUS_NONE && same(wickr_transport_ctx_get_local_identity_ptr(t), a), "another transport"); }, [=] { return dump(a); }); });
}

// ------------------------------------------------------------------ transports: refusals anywhere in a whole conversation
struct Plan { uint64_t seed; int a, z; bool pa, pz; uint32_t evo; int msgs; };
static void conversation(const Plan &p, int64_t at, bool good, uint64_t &calls)
{
    Rng r(p.seed);
    Actor &A_ = W[p.a], &Z_ = W[p.z];
    auto a = make_ep("a", E, A_.dev.chain(), p.pa ? Z_.pub.get() : NULL, p.evo), z = make_ep("z", E, Z_.dev.chain(), p.pz ? A_.pub.get() : NULL, p.evo);
    M = Mem(); M.at = at; M.good = good;
    bool over = false;
    std::vector<Bytes> sent[2];
    std::string where = "nowhere";
    auto op = [&](Endpoint &x, const char *what, std::function<void()> f) {
        if (over) return;
        uint64_t before = M.failed;
        size_t tx = x.tx.size(), rx = x.rx.size();
        int st = x.status();
        M.on = true;
        f();
        M.on = false;
        if (M.failed == before) return;
        where = fmt("%s of %s in state %d, %s, %zu bytes", what, x.name, st, M.what, M.size);
        distinct(fmt("transport %s %d %s %zu %d", what, st, M.what, M.size, good));
        ev("transport_refused");
        if (x.status() != TRANSPORT_STATUS_ERROR) { EXPECT(may_ignore(x.status()), "transport-ignores", "%s is refused (%s) and the transport goes on", UNIT, where.c_str()); ev("transport_unharmed"); return; }      // (then everything has to arrive: below)
        EXPECT(x.error() != TRANSPORT_ERROR_NONE, "transport-unreported", "a call beneath is refused (%s) and the transport is in the error state with error %d", where.c_str(), x.error());
        EXPECT(x.rx.size() == rx, "transport-delivers", "a call beneath is refused (%s) and data is delivered by a transport that fails", where.c_str());
        EXPECT(st != TRANSPORT_STATUS_ACTIVE || x.tx.size() == tx, "transport-sends", "a call beneath is refused (%s) and a packet is sent by a transport that fails", where.c_str());
        over = true;
    };
    auto flow = [&] { for (int i = 0; i < 40 && !over; i++) {
        bool any_ = false;
        if (a->has_tx()) { any_ = true; View b(a->take()); op(*z, "rx", [&] { wickr_transport_ctx_process_rx_buffer(z->t.get(), b); }); }
        if (!over && z->has_tx()) { any_ = true; View b(z->take()); op(*a, "rx", [&] { wickr_transport_ctx_process_rx_buffer(a->t.get(), b); }); }
        if (!any_) break;
    } };
    op(*a, "start", [&] { a->start(); });
    flow();
    for (int i = 0; i < p.msgs && !over; i++) {
        int w = (int)r.below(2);
        Bytes d = r.bytes(r.range(1, 40));
        sent[w].push_back(d);
        Endpoint &x = w ? *z : *a;
        View b(d);
        op(x, "tx", [&] { wickr_transport_ctx_process_tx_buffer(x.t.get(), b); });
        flow();
    }
    calls = M.count;
    bool any_fault = M.failed > 0;
    M = Mem();
    for (int w = 0; w < 2; w++) {
        Endpoint &y = w ? *a : *z;
        for (size_t i = 0; i < y.rx.size(); i++) EXPECT(i < sent[w].size() && y.rx[i] == sent[w][i], "transport-data", "a transport delivers something that was not sent, or out of order (refused: %s)", where.c_str());
        if (!over) EXPECT(y.rx.size() == sent[w].size(), any_fault ? "transport-silent" : "transport-fails", "%zu of %zu messages arrive and no transport fails (refused: %s)", y.rx.size(), sent[w].size(), where.c_str());
    }
    if (!over) { EXPECT(a->status() == TRANSPORT_STATUS_ACTIVE && z->status() == TRANSPORT_STATUS_ACTIVE, any_fault ? "transport-silent" : "transport-fails", "a conversation ends in states %d and %d (refused: %s)", a->status(), z->status(), where.c_str()); if (!any_fault) ev("conversations"); return; }
    for (auto *x : { a.get(), z.get() }) if (x->status() == TRANSPORT_STATUS_ERROR) {
        size_t tx = x->tx.size(), rx = x->rx.size();
        x->send(Bytes(3, 1)); x->start(); x->decide(true); for (auto &b : (x == a.get() ? z : a)->tx) x->feed(b);
        EXPECT(x->status() == TRANSPORT_STATUS_ERROR && x->tx.size() == tx && x->rx.size() == rx, "transport-revived", "a transport works again after it failed (%s)", where.c_str());
        auto n = make_ep("n", E, wickr_transport_ctx_get_local_identity_ptr(x->t.get()), NULL, p.evo), m = make_ep("m", E, W[0].dev.chain(), NULL, p.evo);
        n->start();
        pump(*n, *m);
        n->send(Bytes(5, 7));
        pump(*n, *m);
        EXPECT(m->rx.size() == 1 && m->rx[0] == Bytes(5, 7), "transport-not-again", "a new transport does not work after another failed (%s)", where.c_str());
        ev("new_transport_works");
    }
}
static void transports(Rng &r)
{
    Plan p;
    p.seed = r.u64(); p.a = (int)r.below(W.size()); p.z = (int)r.below(W.size()); p.pa = r.chance(1, 2); p.pz = r.chance(1, 2); p.evo = (uint32_t)r.pick({ 1, 2, 3 }); p.msgs = (int)r.range(0, 6);
    uint64_t n = 0, dummy, lim = g_thorough ? 100000 : 80;
    conversation(p, -1, false, n);
    for (uint64_t i = 0; i < n; i++) if (n <= lim || r.chance((unsigned)lim, (unsigned)n)) conversation(p, (int64_t)i, r.chance(1, 3), dummy);
}

} // namespace v
