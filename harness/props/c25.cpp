// C25: device identifiers are a fixed function of (device salt, system identifier); local storage keys are a fixed function
// of (account storage root, system identifier) and remote ones belong to the account; stored data is read exactly by
// contexts with the same keys and by no other.
#include "../scen.hpp"

namespace v {
const char *PROP_ID = "C25";
static wickr_crypto_engine_t E;

void prop_init() { rand_install(); E = plain_engine(); }
void prop_fini() {}

struct Di { Bytes salt, sys, sys_salt, msg, srv; };
static Di ref_di(const Bytes &salt, const Bytes &sys)
{
    Bytes h = ref::sha(512, cat({ sys, salt }));
    return Di{ salt, sys, ref::sha(256, sys), sub(h, 0, 32), sub(h, 32) };
}
static H<wickr_dev_info_t> derive(const Bytes &salt, const Bytes &sys)
{
    wickr_buffer_t *s = mkp(salt);
    View w(sys);
    auto d = own(wickr_dev_info_derive(&E, s, w));
    REQUIRE(d, "derive", "device information could not be derived (salt %zu, system id %zu)", salt.size(), sys.size());
    EXPECT(B(&w) == sys, "derive-input", "deriving changed the system identifier");
    return d;
}
static void check_di(const wickr_dev_info_t *d, const Di &x, const char *how)
{
    EXPECT(eq(d->dev_salt, x.salt), "dev-salt", "%s: the device salt is not the one given", how);
    EXPECT(eq(d->system_salt, x.sys_salt), "system-salt", "%s: the system salt is not SHA256(system id)", how);
    EXPECT(eq(d->msg_proto_id, x.msg), "msg-proto-id", "%s: msg_proto_id %s, documented %s", how, hex(B(d->msg_proto_id)).c_str(), hex(x.msg).c_str());
    EXPECT(eq(d->srv_comm_id, x.srv), "srv-comm-id", "%s: srv_comm_id %s, documented %s", how, hex(B(d->srv_comm_id)).c_str(), hex(x.srv).c_str());
    ev("derived");
}
static Bytes change(Rng &r, const Bytes &b)
{
    Bytes c = b;
    switch (r.below(5)) {
        case 0: c.push_back(0); break;
        case 1: c.insert(c.begin(), 0); break;
        case 2: if (c.size() > 1) { c.pop_back(); break; }
        // fall through
        case 3: c[r.below(c.size())] ^= (uint8_t)(1u << r.below(8)); break;
        default: c[c.size() - 1] ^= 1; break;
    }
    return c;
}

static void derive_case(Rng &r)
{
    Bytes salt = gen_bytes(r, 3000), sys = gen_bytes(r, 3000);
    Di x = ref_di(salt, sys);
    auto d = derive(salt, sys);
    check_di(d.get(), x, "derive");
    auto d2 = derive(salt, sys);
    EXPECT(same(d.get(), d2.get()), "not-deterministic", "the same device salt and system id give different identifiers");
    auto d3 = own(wickr_dev_info_copy(d.get()));
    EXPECT(same(d.get(), d3.get()), "copy", "a copy of device information differs");
    for (int i = 0; i < 6; i++) {
        bool which = r.chance(1, 2);
        Bytes salt2 = which ? change(r, salt) : salt, sys2 = which ? sys : change(r, sys);
        auto o = derive(salt2, sys2);
        check_di(o.get(), ref_di(salt2, sys2), "derive");
        EXPECT(!same(o->msg_proto_id, d->msg_proto_id) && !same(o->srv_comm_id, d->srv_comm_id), "ids-unchanged", "changing the %s left an identifier unchanged", which ? "device salt" : "system id");
        EXPECT(same(o->system_salt, d->system_salt) == which, "system-salt-binding", "the system salt %s when the %s changed", which ? "changed" : "did not change", which ? "device salt" : "system id");
        ev("changed_inputs");
    }
    // newly generated
    rand_state().record = true; rand_state().draws.clear();
    View sv(sys);
    auto n = own(wickr_dev_info_create_new(&E, sv));
    auto n2 = own(wickr_dev_info_create_new(&E, sv));
    REQUIRE(n && n2, "create-new", "creating device information failed");
    auto &dr = rand_state().draws;
    EXPECT(n->dev_salt->length == 64, "new-salt-size", "a new device salt has %zu bytes", n->dev_salt->length);
    bool from_source = false;
    for (auto &y : dr) if (eq(n->dev_salt, y)) from_source = true;
    EXPECT(from_source, "new-salt-origin", "a new device salt does not come from the random source");
    rand_state().record = false;
    check_di(n.get(), ref_di(B(n->dev_salt), sys), "create_new");
    EXPECT(!same(n->dev_salt, n2->dev_salt) && !same(n->msg_proto_id, n2->msg_proto_id), "new-salt-repeats", "two new devices on one system share their salt");
    auto again = derive(B(n->dev_salt), sys);
    EXPECT(same(n.get(), again.get()), "not-reproducible", "a stored device salt does not give the same identifiers again");
    EXPECT(!wickr_dev_info_create_new(&E, NULL) && !wickr_dev_info_create_new(NULL, sv) && !wickr_dev_info_derive(&E, NULL, sv), "missing-input", "device information was made without its inputs");
    distinct(fmt("derive %zu %zu", salt.size(), sys.size()));
}

// the local and remote storage keys a device must have
struct Keys { Bytes local, remote; };
static Keys ref_keys(const wickr_root_keys_t *k, const wickr_dev_info_t *d) { return Keys{ ref::sha(256, cat({ B(k->node_storage_root->key_data), B(d->system_salt) })), B(k->remote_storage_root->key_data) }; }

static void localize_case(Rng &r)
{
    std::vector<H<wickr_root_keys_t>> acc;
    std::vector<H<wickr_dev_info_t>> dev;
    for (int i = 0; i < 3; i++) {
        auto k = own(wickr_root_keys_generate(&E));
        REQUIRE(k && k->node_signature_root && k->node_storage_root && k->remote_storage_root, "root-keys", "generating account keys failed");
        EXPECT(cipher_eq(k->node_storage_root->cipher, CIPHER_AES256_GCM) && cipher_eq(k->remote_storage_root->cipher, CIPHER_AES256_GCM) && k->node_storage_root->key_data->length == 32, "root-key-cipher", "account storage keys are not AES-256-GCM keys");
        acc.push_back(std::move(k));
    }
    Bytes sys = r.bytes(r.range(1, 60)), salt = r.bytes(64);
    dev.push_back(derive(salt, sys));
    dev.push_back(derive(change(r, salt), sys));          // same system, other device salt
    dev.push_back(derive(salt, change(r, sys)));
    // an account that shares one of the two storage roots with another account
    {
        auto k = own(wickr_root_keys_copy(acc[0].get()));
        size_t i = r.below(32);
        if (r.chance(1, 2)) k->node_storage_root->key_data->bytes[i] ^= (uint8_t)(1u << r.below(8));
        else k->remote_storage_root->key_data->bytes[i] ^= (uint8_t)(1u << r.below(8));
        acc.push_back(std::move(k));
    }
    struct R { size_t a, d; H<wickr_storage_keys_t> s; };
    std::vector<R> all;
    for (size_t a = 0; a < acc.size(); a++) for (size_t d = 0; d < dev.size(); d++) {
        auto s = own(wickr_root_keys_localize(acc[a].get(), &E, dev[d].get()));
        REQUIRE(s && s->local && s->remote, "localize", "deriving storage keys failed");
        Keys x = ref_keys(acc[a].get(), dev[d].get());
        EXPECT(eq(s->local->key_data, x.local), "local-key", "the local storage key is not SHA256(storage root || system salt)");
        EXPECT(same(s->remote, acc[a]->remote_storage_root), "remote-key", "the remote storage key is not the account's");
        EXPECT(cipher_eq(s->local->cipher, CIPHER_AES256_GCM), "local-cipher", "the local storage key is for another cipher");
        EXPECT(s->remote != acc[a]->remote_storage_root, "remote-shared", "storage keys share memory with the account keys");
        auto s2 = own(wickr_root_keys_localize(acc[a].get(), &E, dev[d].get()));
        EXPECT(same(s.get(), s2.get()), "not-deterministic", "deriving the storage keys twice gives different keys");
        all.push_back(R{ a, d, std::move(s) });
        ev("localized");
    }
    for (auto &x : all) for (auto &y : all) {
        if (&x == &y) continue;
        bool sl = same(acc[x.a]->node_storage_root, acc[y.a]->node_storage_root) && same(dev[x.d]->system_salt, dev[y.d]->system_salt);
        bool sr = same(acc[x.a]->remote_storage_root, acc[y.a]->remote_storage_root);
        EXPECT(same(x.s->local, y.s->local) == sl, "local-binding", "local storage keys of account %zu device %zu and account %zu device %zu are %s", x.a, x.d, y.a, y.d, sl ? "different" : "equal");
        EXPECT(same(x.s->remote, y.s->remote) == sr, "remote-binding", "remote storage keys of accounts %zu and %zu are %s", x.a, y.a, sr ? "different" : "equal");
        EXPECT(!same(x.s->local, y.s->remote), "local-is-remote", "a local storage key equals a remote one");
    }
    EXPECT(!wickr_root_keys_localize(NULL, &E, dev[0].get()) && !wickr_root_keys_localize(acc[0].get(), &E, NULL), "missing-input", "storage keys were derived without their inputs");
}

struct Dev { H<wickr_ctx_gen_result_t> g; H<wickr_ctx_t> c; H<wickr_root_keys_t> k; wickr_ctx_t *ctx; int acc; std::string how; };

static void stored_case(Rng &r)
{
    std::vector<Dev> ds;
    std::vector<Bytes> systems;
    for (int i = 0; i < 2; i++) systems.push_back(r.bytes(r.range(1, 50)));
    auto new_di = [&](int s) { View w(systems[s]); auto d = own(wickr_dev_info_create_new(&E, w)); REQUIRE(d, "create-new", "creating device information failed"); return d; };
    for (int a = 0; a < 2; a++) {
        auto di = new_di(0);
        auto id = mk(r.bytes(32));
        Dev d;
        d.acc = a;
        if (r.chance(1, 3)) {
            auto sk = own(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
            d.g = own(wickr_ctx_gen_new_with_sig_key(E, di.get(), sk.get(), id.get()));
            d.how = "gen_new_with_sig_key";
        } else { d.g = own(wickr_ctx_gen_new(E, di.get(), id.get())); d.how = "gen_new"; }
        REQUIRE(d.g, "generate", "making an account failed");
        EXPECT(!same(d.g->root_keys->node_storage_root, d.g->root_keys->remote_storage_root) && !same(d.g->recovery_key, d.g->root_keys->remote_storage_root) && !same(d.g->recovery_key, d.g->root_keys->node_storage_root), "keys-shared", "an account uses one key for two purposes");
        d.ctx = d.g->ctx;
        d.k = own(wickr_root_keys_copy(d.g->root_keys));
        size_t first = ds.size();
        ds.push_back(std::move(d));
        // further devices of the account: on the same system and on another
        for (int s = 0; s < 2; s++) {
            auto dj = new_di(s);
            Dev e;
            e.acc = a;
            auto id2 = mk(B(ds[first].ctx->id_chain->root->identifier));
            if (r.chance(1, 2)) {
                e.g = own(wickr_ctx_gen_with_root_keys(E, dj.get(), ds[first].g->root_keys, id2.get()));
                e.how = fmt("gen_with_root_keys system %d", s);
            } else {
                auto rd = own(wickr_ctx_gen_result_make_recovery(ds[first].g.get()));
                e.g = own(wickr_ctx_gen_with_recovery(E, dj.get(), rd.get(), ds[first].g->recovery_key, id2.get()));
                e.how = fmt("gen_with_recovery system %d", s);
            }
            REQUIRE(e.g, "generate", "adding a device failed");
            e.ctx = e.g->ctx;
            e.k = own(wickr_root_keys_copy(ds[first].g->root_keys));
            ds.push_back(std::move(e));
        }
        // the same device restored, and copied
        {
            Dev e;
            e.acc = a;
            auto sb = own(wickr_ctx_serialize(ds[first].ctx));
            auto dc = own(wickr_dev_info_copy(ds[first].ctx->dev_info));
            e.c = own(wickr_ctx_create_from_buffer(E, dc.get(), sb.get()));
            REQUIRE(e.c, "restore", "restoring a context failed");
            dc.release();
            e.ctx = e.c.get();
            e.how = "restored";
            e.k = own(wickr_root_keys_copy(ds[first].g->root_keys));
            ds.push_back(std::move(e));
        }
    }
    for (auto &d : ds) {
        Keys x = ref_keys(d.k.get(), d.ctx->dev_info);
        EXPECT(eq(d.ctx->storage_keys->local->key_data, x.local), "context-local-key", "%s: the local storage key is not the one derived from the account's storage root and the device", d.how.c_str());
        EXPECT(eq(d.ctx->storage_keys->remote->key_data, x.remote), "context-remote-key", "%s: the remote storage key is not the account's", d.how.c_str());
        distinct(d.how);
    }
    for (size_t i = 0; i < ds.size(); i++) for (int local = 0; local < 2; local++) {
        Bytes data = gen_bytes(r, 5000);
        View w(data);
        const wickr_cipher_key_t *key = local ? ds[i].ctx->storage_keys->local : ds[i].ctx->storage_keys->remote;
        auto x = own(local ? wickr_ctx_cipher_local(ds[i].ctx, w) : wickr_ctx_cipher_remote(ds[i].ctx, w));
        REQUIRE(x, "store", "storing %zu bytes failed", data.size());
        auto sb = own(wickr_cipher_result_serialize(x.get()));
        Bytes pt;
        EXPECT(ref::gcm_unbox(B(key->key_data), B(sb), pt) && pt == data, "stored-form", "stored data is not the documented encryption under the %s storage key", local ? "local" : "remote");
        if (data.size() > 8) EXPECT(!contains(B(sb), data), "stored-clear", "stored data contains the data itself");
        // written by an earlier release
        Bytes box = r.chance(1, 3) ? ref::gcm_box(B(key->key_data), r.bytes(12), data) : B(sb);
        View bv(box);
        auto y = own(wickr_cipher_result_from_buffer(bv));
        REQUIRE(y, "stored-parse", "stored data can not be parsed");
        for (size_t j = 0; j < ds.size(); j++) {
            bool sl = same(ds[i].ctx->storage_keys->local, ds[j].ctx->storage_keys->local), sr = same(ds[i].ctx->storage_keys->remote, ds[j].ctx->storage_keys->remote);
            // the relation itself comes from accounts and systems
            bool same_acc = ds[i].acc == ds[j].acc, same_sys = same(ds[i].ctx->dev_info->system_salt, ds[j].ctx->dev_info->system_salt);
            EXPECT(sl == (same_acc && same_sys), "local-binding", "%s and %s %s a local storage key", ds[i].how.c_str(), ds[j].how.c_str(), sl ? "share" : "do not share");
            EXPECT(sr == same_acc, "remote-binding", "%s and %s %s a remote storage key", ds[i].how.c_str(), ds[j].how.c_str(), sr ? "share" : "do not share");
            for (int as_local = 0; as_local < 2; as_local++) {
                auto p = own(as_local ? wickr_ctx_decipher_local(ds[j].ctx, y.get()) : wickr_ctx_decipher_remote(ds[j].ctx, y.get()));
                bool want = as_local == local && (local ? same_acc && same_sys : same_acc);
                if (want) EXPECT(p && eq(p.get(), data), "not-read", "data stored %s by %s can not be read by %s", local ? "locally" : "remotely", ds[i].how.c_str(), ds[j].how.c_str());
                else EXPECT(!p, "read-by-other", "data stored %s by %s (account %d) was read %s by %s (account %d)", local ? "locally" : "remotely", ds[i].how.c_str(), ds[i].acc, as_local ? "locally" : "remotely", ds[j].how.c_str(), ds[j].acc);
                ev(want ? "read" : "read_refused");
            }
        }
        // altered
        for (int n = 0; n < 6; n++) {
            std::string what;
            Bytes m = mutate(r, box, &what);
            View mv(m);
            auto z = own(wickr_cipher_result_from_buffer(mv));
            if (!z) { ev("altered_refused"); continue; }
            auto p = own(local ? wickr_ctx_decipher_local(ds[i].ctx, z.get()) : wickr_ctx_decipher_remote(ds[i].ctx, z.get()));
            EXPECT(!p, "altered-read", "altered stored data was read (%s)", what.c_str());
            ev("altered_refused");
        }
        // stored without authentication under the same key
        Bytes iv = r.bytes(16);
        View cv(ref::cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), ref::ctr(B(key->key_data), iv, data)));
        auto z = own(wickr_cipher_result_from_buffer(cv));
        if (z) { auto p = own(local ? wickr_ctx_decipher_local(ds[i].ctx, z.get()) : wickr_ctx_decipher_remote(ds[i].ctx, z.get())); EXPECT(!p, "unauthenticated-read", "unauthenticated stored data was read"); }
        EXPECT(!wickr_ctx_decipher_local(ds[i].ctx, NULL) && !wickr_ctx_decipher_remote(ds[i].ctx, NULL), "missing-input", "nothing was read");
    }
}

void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    if (k % 8 == 7) stored_case(r);
    else if (k % 8 == 6) localize_case(r);
    else derive_case(r);
}
} // namespace v
