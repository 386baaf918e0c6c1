// C08: stream keys evolve exactly as specified and old keys cannot be recovered from a later state.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C08";
void prop_init() {}

// every byte string reachable from a stream
static Bytes state_bytes(const wickr_stream_ctx_t *c)
{
    Bytes o((const uint8_t *)c, (const uint8_t *)c + sizeof *c);
    auto add = [&](const wickr_buffer_t *b) { Bytes x = B(b); o.insert(o.end(), x.begin(), x.end()); };
    add(c->key->cipher_key->key_data);
    add(c->key->evolution_key);
    add(c->key->user_data);
    if (c->iv_factory) add(c->iv_factory->seed);
    auto s = own(wickr_stream_key_serialize(c->key));
    add(s.get());
    return o;
}
static bool reaches(const ref::Stream &from, const std::set<Bytes> &targets, int steps)
{
    ref::Stream s = from;
    for (int i = 0; i < steps; i++) { if (targets.count(s.key) || targets.count(s.evo)) return true; s.step(); }
    return false;
}

void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    rand_seed(r.u64());
    uint32_t ppe = r.pick<uint32_t>({ 1, 1, 2, 3, 4, 7, 10, 64, 255, 512, 1000, 32767, 32768 });
    Bytes ck = r.chance(1, 8) ? Bytes(32, (uint8_t)r.u64()) : r.bytes(32), ek = r.chance(1, 5) ? r.bytes(r.range(1, 300)) : r.bytes(32);
    ref::Stream m0(ck, ek, ppe);
    auto mkkey = [&] {
        wickr_stream_key_t *x = r.chance(1, 2) ? wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), ppe)
                                               : wickr_stream_key_create_user_data(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), ppe, mkp(r.bytes(9)));
        REQUIRE(x, "key-create", "creating a stream key failed (ppe %u)", ppe);
        return x;
    };
    auto enc = own(wickr_stream_ctx_create(e, mkkey(), STREAM_DIRECTION_ENCODE));
    auto dec = own(wickr_stream_ctx_create(e, mkkey(), STREAM_DIRECTION_DECODE));
    REQUIRE(enc && dec, "ctx-create", "creating streams failed");

    // the sequence numbers of this case
    std::vector<uint64_t> seqs;
    uint64_t last = 0, max_ep = g_thorough ? 3000 : 400;
    size_t n = r.range(6, 24);
    if (r.chance(1, 12)) { seqs.push_back(last = (uint64_t)ppe * r.range(200, max_ep) + r.below(ppe)); }
    while (seqs.size() < n) {
        uint64_t s;
        switch (r.below(7)) {
            case 0: s = (last / ppe + 1) * ppe; break;
            case 1: s = (last / ppe + 1) * ppe - 1; break;
            case 2: s = (last / ppe + 1) * ppe + 1; break;
            case 3: s = last + 1 + r.below(ppe); break;
            case 4: s = last + 1 + r.below(12) * ppe; break;
            case 5: s = (last / ppe + r.range(2, 9)) * ppe - 1; break;
            default: s = last + 1;
        }
        if (s <= last) s = last + 1;
        seqs.push_back(last = s);
    }
    std::map<uint64_t, Bytes> epoch_key;      // as specified
    std::set<Bytes> old;                      // key material of epochs before the current one
    ref::Stream m = m0;
    std::vector<std::pair<uint64_t, H<wickr_cipher_result_t>>> sent;
    uint64_t cur = 0;
    for (uint64_t seq : seqs) {
        while (m.epoch < seq / ppe) { old.insert(m.key); old.insert(m.evo); m.step(); }
        EXPECT(!epoch_key.count(m.epoch) || epoch_key[m.epoch] == m.key, "ref", "reference is inconsistent");
        for (auto &x : epoch_key) if (x.first != m.epoch) EXPECT(x.second != m.key, "epoch-key-repeats", "epochs %" PRIu64 " and %" PRIu64 " share a key", x.first, m.epoch);
        epoch_key[m.epoch] = m.key;
        Bytes pt = gen_bytes(r, 400), aad = gen_bytes(r, 40), out;
        View pv(pt), av(aad);
        // library to reference
        auto ct = own(wickr_stream_ctx_encode(enc.get(), pv, av, seq));
        REQUIRE(ct, "encode-failed", "encrypting packet %" PRIu64 " failed (ppe %u)", seq, ppe);
        EXPECT(ct->iv->length == 12 && ct->auth_tag->length == 16, "shape", "unexpected nonce or tag size");
        bool ok = ref::gcm_dec(m.key, B(ct->iv), aad, B(ct->cipher_text), B(ct->auth_tag), out);
        REQUIRE(ok && out == pt, "key-differs-encode", "packet %" PRIu64 " (ppe %u, epoch %" PRIu64 ") is not encrypted with the key of its epoch", seq, ppe, m.epoch);
        ev("lib_to_ref");
        // reference to library (a second, independent encryption)
        Bytes iv = r.bytes(12);
        auto g = ref::gcm_enc(m.key, iv, aad, pt);
        auto rc = own(wickr_cipher_result_create(CIPHER_AES256_GCM, mkp(iv), mkp(g.ct), mkp(g.tag)));
        auto o = own(wickr_stream_ctx_decode(dec.get(), rc.get(), av, seq));
        REQUIRE(o && eq(o.get(), pt), "key-differs-decode", "packet %" PRIu64 " (ppe %u, epoch %" PRIu64 ") of an independent implementation is not decrypted", seq, ppe, m.epoch);
        ev("ref_to_lib");
        distinct(fmt("e:%u:%" PRIu64 ":%d", ppe, std::min<uint64_t>(m.epoch, 60), seq % ppe == 0 ? 0 : seq % ppe == ppe - 1 ? 2 : 1));
        // the state of both streams
        if (m.epoch != cur) {
            cur = m.epoch;
            for (auto *c : { enc.get(), dec.get() }) {
                Bytes st = state_bytes(c);
                for (auto &x : old) if (x.size() >= 16) EXPECT(!contains(st, x), "old-key-in-state", "after moving to epoch %" PRIu64 " a stream still holds key material of an earlier epoch (ppe %u)", m.epoch, ppe);
                ref::Stream from(B(c->key->cipher_key->key_data), B(c->key->evolution_key), ppe);
                EXPECT(!reaches(from, old, 8), "old-key-recomputable", "key material of an earlier epoch follows from the state at epoch %" PRIu64, m.epoch);
                ev("state_scans");
            }
            // packets of earlier epochs, whatever number is claimed for them, do not open with the present state
            for (int t = 0; t < 3 && !sent.empty(); t++) {
                auto &p = sent[r.below(sent.size())];
                if (p.first / ppe >= m.epoch) continue;
                auto c = own(wickr_stream_ctx_copy(dec.get()));
                REQUIRE(c, "ctx-copy", "copying a stream failed");
                uint64_t as = r.chance(1, 2) ? p.first : c->last_seq + 1 + r.below(2 * (uint64_t)ppe);
                auto x = own(wickr_stream_ctx_decode(c.get(), p.second.get(), NULL, as));
                EXPECT(!x, "old-packet-opened", "a packet of epoch %" PRIu64 " opened with the state of epoch %" PRIu64, p.first / ppe, m.epoch);
                // a fresh stream started from the current key material has no way back either
                auto c2 = own(wickr_stream_ctx_create(e, wickr_stream_key_copy(dec->key), STREAM_DIRECTION_DECODE));
                auto y = own(wickr_stream_ctx_decode(c2.get(), p.second.get(), NULL, r.chance(1, 2) ? 1 : 1 + r.below(3 * (uint64_t)ppe)));
                EXPECT(!y, "old-packet-opened", "a packet of epoch %" PRIu64 " opened with a stream made from the key of epoch %" PRIu64, p.first / ppe, m.epoch);
                ev("old_packets_tried");
            }
        }
        if (r.chance(1, 2)) { // keep one without associated data for the tests above
            View pv2(pt);
            auto keep = own(wickr_stream_ctx_encode(enc.get(), pv2, NULL, seq + 0));
            EXPECT(!keep, "seq-reused", "the same sequence number was encrypted twice");
            Bytes iv2 = r.bytes(12);
            auto g2 = ref::gcm_enc(m.key, iv2, Bytes(), pt);
            sent.emplace_back(seq, own(wickr_cipher_result_create(CIPHER_AES256_GCM, mkp(iv2), mkp(g2.ct), mkp(g2.tag))));
        }
        if (r.chance(1, 6)) { auto c = own(wickr_stream_ctx_copy(enc.get())); REQUIRE(c, "ctx-copy", "copy"); enc = std::move(c); }
        if (r.chance(1, 6)) { auto c = own(wickr_stream_ctx_copy(dec.get())); REQUIRE(c, "ctx-copy", "copy"); dec = std::move(c); }
    }
    // sequence numbers beyond 32 bits
    if (k % (g_thorough ? 500 : 1000) == 7) {
        uint32_t big = r.pick<uint32_t>({ 32768, 32767 });
        auto key = [&] { return wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), big); };
        auto en = own(wickr_stream_ctx_create(e, key(), STREAM_DIRECTION_ENCODE)), de = own(wickr_stream_ctx_create(e, key(), STREAM_DIRECTION_DECODE));
        ref::Stream f(ck, ek, big);
        const uint64_t two32 = 1ull << 32;
        std::vector<uint64_t> q;
        if (r.chance(1, 2)) q.push_back(1 + r.below(two32 - 1));
        for (uint64_t x : { two32 - 1, two32, two32 + 1, two32 + big - 1, two32 + big, two32 + big + 1, two32 + 9 * (uint64_t)big + r.below(big) }) if (r.chance(3, 4)) q.push_back(x);
        for (uint64_t seq : q) {
            while (f.epoch < seq / big) f.step();
            Bytes pt = r.bytes(1 + r.below(60)), out, iv = r.bytes(12);
            View pv(pt);
            auto ct = own(wickr_stream_ctx_encode(en.get(), pv, NULL, seq));
            REQUIRE(ct, "encode-failed", "encrypting packet %" PRIu64 " failed (ppe %u)", seq, big);
            EXPECT(ref::gcm_dec(f.key, B(ct->iv), Bytes(), B(ct->cipher_text), B(ct->auth_tag), out) && out == pt, "key-differs-far", "packet %" PRIu64 " (ppe %u, epoch %" PRIu64 ") is not encrypted with the key of its epoch", seq, big, f.epoch);
            auto g = ref::gcm_enc(f.key, iv, Bytes(), pt);
            auto rc = own(wickr_cipher_result_create(CIPHER_AES256_GCM, mkp(iv), mkp(g.ct), mkp(g.tag)));
            auto o = own(wickr_stream_ctx_decode(de.get(), rc.get(), NULL, seq));
            EXPECT(o && eq(o.get(), pt), "key-differs-far", "packet %" PRIu64 " (ppe %u, epoch %" PRIu64 ") of an independent implementation is not decrypted", seq, big, f.epoch);
            auto again = own(wickr_stream_ctx_decode(de.get(), rc.get(), NULL, seq));
            EXPECT(!again, "seq-reused", "packet %" PRIu64 " was accepted twice", seq);
            ev("beyond_32_bits");
        }
    }
    // many packets on one stream, without a copy or a restart in between
    if (k % 60 == 31) {
        uint32_t iv = r.pick<uint32_t>({ 1, 2, 5, 60, 255, 256, 257, 512, 700 });
        auto key = [&] { return wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), iv); };
        auto en = own(wickr_stream_ctx_create(e, key(), STREAM_DIRECTION_ENCODE)), de = own(wickr_stream_ctx_create(e, key(), STREAM_DIRECTION_DECODE));
        ref::Stream f(ck, ek, iv);
        std::set<Bytes> nonces;
        uint64_t seq = r.below(3);
        for (int i = 0; i < 1400; i++) {
            seq += r.chance(1, 20) ? r.range(1, 3) : 1;
            while (f.epoch < seq / iv) f.step();
            Bytes pt{ (uint8_t)i, (uint8_t)(i >> 8), 3 }, out;
            View pv(pt);
            auto ct = own(wickr_stream_ctx_encode(en.get(), pv, NULL, seq));
            REQUIRE(ct, "encode-failed", "encrypting packet %d of a long stream failed", i);
            REQUIRE(ref::gcm_dec(f.key, B(ct->iv), Bytes(), B(ct->cipher_text), B(ct->auth_tag), out) && out == pt, "key-differs-long", "packet %" PRIu64 " (ppe %u, epoch %" PRIu64 "), the %d. of its stream, is not encrypted with the key of its epoch", seq, iv, f.epoch, i + 1);
            EXPECT(nonces.insert(B(ct->iv)).second, "nonce-repeats", "packet %d of a stream has the nonce of an earlier one", i);
            auto o = own(wickr_stream_ctx_decode(de.get(), ct.get(), NULL, seq));
            REQUIRE(o && eq(o.get(), pt), "not-delivered-long", "packet %" PRIu64 " (ppe %u), the %d. of its stream, is not decrypted", seq, iv, i + 1);
        }
        ev("long_streams");
    }
    // two independent implementations agree for one far away sequence number reached at once
    if (k % 4 == 0) {
        uint64_t seq = (uint64_t)ppe * r.range(1, max_ep) + r.below(ppe);
        auto c = own(wickr_stream_ctx_create(e, mkkey(), STREAM_DIRECTION_ENCODE));
        Bytes pt = r.bytes(17), out;
        View pv(pt);
        auto ct = own(wickr_stream_ctx_encode(c.get(), pv, NULL, seq));
        REQUIRE(ct, "encode-failed", "encrypting packet %" PRIu64 " on a new stream failed", seq);
        EXPECT(ref::gcm_dec(m0.at(seq).key, B(ct->iv), Bytes(), B(ct->cipher_text), B(ct->auth_tag), out) && out == pt, "key-differs-jump", "packet %" PRIu64 " reached in one step is not encrypted with the key of its epoch (ppe %u)", seq, ppe);
        ev("jumps");
    }
}
void prop_fini() {}
}
