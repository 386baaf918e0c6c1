// C07: streams deliver exactly what was encrypted and reject everything else.
// A model of the stream (which packet may be delivered next) decides every operation of a random schedule.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C07";
void prop_init() {}

struct Pkt { uint64_t seq; Bytes pt, aad; bool has_aad; H<wickr_cipher_result_t> ct; };

static H<wickr_stream_key_t> new_key(Rng &r, wickr_crypto_engine_t e, uint32_t ppe, ref::Stream &m)
{
    Bytes k = r.bytes(32), ev = r.chance(1, 4) ? r.bytes(r.range(1, 200)) : r.bytes(32);
    H<wickr_stream_key_t> key;
    if (r.chance(1, 2)) {
        key = own(wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(k)), mkp(ev), ppe));
    } else if (r.chance(1, 2)) {
        key = own(wickr_stream_key_create_user_data(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(k)), mkp(ev), ppe, mkp(r.bytes(r.range(1, 40)))));
    } else {
        key = own(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, ppe));
    }
    REQUIRE(key, "key-create", "creating a stream key failed (packets per evolution %u)", ppe);
    m = ref::Stream(B(key->cipher_key->key_data), B(key->evolution_key), ppe);
    return key;
}
static H<wickr_stream_key_t> peer_key(Rng &r, const wickr_stream_key_t *k)
{
    if (r.chance(1, 2)) return own(wickr_stream_key_copy(k));
    auto s = own(wickr_stream_key_serialize(k));
    REQUIRE(s, "key-serialize", "serializing a stream key failed");
    return own(wickr_stream_key_create_from_buffer(s.get()));
}
static wickr_buffer_t *dec(wickr_stream_ctx_t *c, const wickr_cipher_result_t *ct, bool has_aad, const Bytes &aad, uint64_t seq)
{
    View a(aad);
    return wickr_stream_ctx_decode(c, ct, has_aad ? (const wickr_buffer_t *)a : NULL, seq);
}
static uint64_t next_seq(Rng &r, uint64_t last, uint32_t ppe)
{
    switch (r.below(8)) {
        case 0: return last + 1 + r.below(ppe);
        case 1: return (last / ppe + 1) * ppe;                    // first of the next epoch
        case 2: { uint64_t n = (last / ppe + 1) * ppe - 1; return n > last ? n : last + 1; }   // last of this epoch
        case 3: return last + 1 + r.below(20) * ppe;
        default: return last + 1;
    }
}

void prop_case(uint64_t k, Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    mon().reset();
    rand_seed(r.u64());
    uint32_t ppe = r.pick<uint32_t>({ 1, 1, 2, 3, 5, 16, 511, 512, 513, 4096, 32767, 32768 });
    ref::Stream m0;
    auto key = new_key(r, e, ppe, m0);
    auto dkey = peer_key(r, key.get());
    REQUIRE(dkey, "key-parse", "a copy of a stream key could not be made");
    ref::Stream foreign;
    auto fkey = new_key(r, e, ppe, foreign);
    bool same_first = false;
    if (r.chance(1, 3)) { // a stream that differs only in the evolution key
        Bytes ck = B(key->cipher_key->key_data);
        fkey = own(wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(r.bytes(32)), ppe));
        same_first = true;
    }
    auto enc = own(wickr_stream_ctx_create(e, key.release(), STREAM_DIRECTION_ENCODE));
    auto decx = own(wickr_stream_ctx_create(e, dkey.release(), STREAM_DIRECTION_DECODE));
    auto fenc = own(wickr_stream_ctx_create(e, fkey.release(), STREAM_DIRECTION_ENCODE));
    REQUIRE(enc && decx && fenc, "ctx-create", "creating stream contexts failed");

    uint64_t last_e = 0, last_d = 0, start = r.chance(1, 3) ? r.below((uint64_t)ppe * 40) : 0;
    std::vector<std::shared_ptr<Pkt>> all;
    size_t di = 0;           // next genuine packet not yet delivered or skipped
    int steps = g_thorough ? 60 : 30;
    uint64_t rejected_since = 0;
    for (int st = 0; st < steps; st++) {
        switch (r.below(12)) {
            case 0: case 1: case 2: { // produce
                auto p = std::make_shared<Pkt>();
                p->seq = last_e ? next_seq(r, last_e, ppe) : start ? start : r.pick<uint64_t>({ 1, 1, 2, ppe, (uint64_t)ppe * 2 });
                p->pt = gen_bytes(r, 5000);
                p->has_aad = r.chance(2, 3);
                if (p->has_aad) p->aad = gen_bytes(r, 100);
                View pv(p->pt), av(p->aad);
                std::string keep = snap(pv) + snap(av);
                p->ct = own(wickr_stream_ctx_encode(enc.get(), pv, p->has_aad ? (const wickr_buffer_t *)av : NULL, p->seq));
                REQUIRE(p->ct, "encode-failed", "encrypting packet %" PRIu64 " after %" PRIu64 " failed (ppe %u)", p->seq, last_e, ppe);
                EXPECT(keep == snap(pv) + snap(av), "encode-altered-input", "encrypting altered its input");
                last_e = p->seq;
                all.push_back(p);
                ev("encoded");
                if (r.chance(1, 3)) { // the ciphertext travels in serialized form
                    auto s = own(wickr_cipher_result_serialize(p->ct.get()));
                    p->ct = own(wickr_cipher_result_from_buffer(s.get()));
                    REQUIRE(p->ct, "ct-parse", "a stream ciphertext did not survive serialization");
                }
                break;
            }
            case 3: { // encrypt requests that must be refused and leave the stream as it was
                Bytes pt = r.bytes(20);
                View pv(pt);
                uint64_t s = r.chance(1, 3) ? last_e : r.chance(1, 3) ? 0 : r.below(last_e + 1);
                H<wickr_cipher_result_t> x;
                const char *what = "";
                switch (r.below(3)) {
                    case 0: x = own(wickr_stream_ctx_encode(enc.get(), pv, NULL, s)); what = "an old sequence number"; break;
                    case 1: x = own(wickr_stream_ctx_encode(decx.get(), pv, NULL, last_d + 1 + r.below(3 * ppe))); what = "a decrypting stream"; break;
                    default: x = own(wickr_stream_ctx_encode(enc.get(), NULL, NULL, last_e + 1 + r.below(3 * ppe))); what = "no data"; break;
                }
                EXPECT(!x, "encode-accepted", "encrypting with %s succeeded (seq %" PRIu64 " last %" PRIu64 ")", what, s, last_e);
                ev("encode_refused");
                distinct(fmt("er:%s", what));
                rejected_since++;
                break;
            }
            case 4: { // a provider failure in the middle of an operation
                mon().fail_at = (int64_t)mon().count + (int64_t)r.below(3);
                if (r.chance(1, 2)) {
                    Bytes pt = r.bytes(20);
                    View pv(pt);
                    uint64_t s = last_e + 1 + r.below(3 * ppe);
                    auto x = own(wickr_stream_ctx_encode(enc.get(), pv, NULL, s));
                    if (x) last_e = s; else ev("provider_failure");
                } else if (di < all.size()) {
                    auto &p = all[di];
                    auto o = own(dec(decx.get(), p->ct.get(), p->has_aad, p->aad, p->seq));
                    if (o) { EXPECT(eq(o.get(), p->pt), "decode-wrong", "packet %" PRIu64 " decrypted to other bytes", p->seq); last_d = p->seq; di++; } else { ev("provider_failure"); rejected_since++; }
                }
                mon().fail_at = -1;
                break;
            }
            case 5: { // continue on a copy (the original is dropped)
                auto c = own(wickr_stream_ctx_copy(r.chance(1, 2) ? enc.get() : decx.get()));
                REQUIRE(c, "ctx-copy", "copying a stream failed");
                if (c->direction == STREAM_DIRECTION_ENCODE) enc = std::move(c); else decx = std::move(c);
                ev("copied");
                break;
            }
            case 6: case 7: case 8: { // hostile input to the decrypting side
                if (all.empty()) break;
                auto &p = all[r.chance(1, 2) && di < all.size() ? di : r.below(all.size())];
                auto ct = own(wickr_cipher_result_copy(p->ct.get()));
                Bytes aad = p->aad;
                bool has_aad = p->has_aad;
                uint64_t seq = p->seq;
                bool fresh = seq > last_d;
                const char *what = "";
                switch (r.below(16)) {
                    case 0: ct->cipher_text->bytes[r.below(ct->cipher_text->length)] ^= (uint8_t)(1u << r.below(8)); what = "bit of ciphertext"; break;
                    case 1: ct->auth_tag->bytes[r.below(ct->auth_tag->length)] ^= (uint8_t)(1u << r.below(8)); what = "bit of tag"; break;
                    case 2: ct->iv->bytes[r.below(ct->iv->length)] ^= (uint8_t)(1u << r.below(8)); what = "bit of nonce"; break;
                    case 3: if (!has_aad) { has_aad = true; aad = r.bytes(5); } else aad[r.below(aad.size())] ^= (uint8_t)(1u << r.below(8)); what = "bit of associated data"; break;
                    case 4: if (has_aad) has_aad = false; else { has_aad = true; aad = Bytes(1, 0); } what = "associated data missing or added"; break;
                    case 5: { // another sequence number: same epoch lets only last_seq decide, so the data must be bound by the caller's aad; use another epoch
                        uint64_t ep = seq / ppe, other = r.chance(1, 2) && ep > 0 ? ep - 1 - r.below(std::min<uint64_t>(ep, 3)) : ep + 1 + r.below(20);
                        seq = other * ppe + r.below(ppe);
                        what = "sequence number of another epoch";
                        break;
                    }
                    case 6: if (fresh) { seq = r.chance(1, 2) ? last_d : r.below(last_d + 1); } what = "old sequence number"; break;
                    case 7: { // truncated or extended
                        Bytes c = B(ct->cipher_text);
                        if (r.chance(1, 2) && c.size() > 1) c.resize(c.size() - 1 - r.below(c.size() - 1)); else c.push_back((uint8_t)r.u64());
                        wickr_buffer_destroy(&ct->cipher_text);
                        ct->cipher_text = mkp(c);
                        what = "length of ciphertext";
                        break;
                    }
                    case 8: { // cross stream
                        uint64_t fs = std::max(fenc->last_seq, last_d) + 1;
                        View pv(p->pt), av(p->aad);
                        ct = own(wickr_stream_ctx_encode(fenc.get(), pv, has_aad ? (const wickr_buffer_t *)av : NULL, fs));
                        REQUIRE(ct, "encode-failed", "encrypting on a second stream failed");
                        seq = fs;
                        if (fs < ppe && same_first) ct.reset();   // same key in epoch 0: not foreign
                        what = "packet of another stream";
                        break;
                    }
                    case 9: { // unauthenticated encryption under the right key
                        if (!fresh) break;
                        ref::Stream s = m0.at(seq);
                        Bytes iv = r.bytes(16);
                        ct = own(wickr_cipher_result_create(CIPHER_AES256_CTR, mkp(iv), mkp(ref::ctr(s.key, iv, p->pt)), NULL));
                        what = "unauthenticated ciphertext";
                        break;
                    }
                    case 10: { // shortened tag
                        Bytes t = B(ct->auth_tag);
                        t.resize(r.range(1, 15));
                        wickr_buffer_destroy(&ct->auth_tag);
                        ct->auth_tag = mkp(t);
                        what = "shortened tag";
                        break;
                    }
                    case 11: { // replay of something delivered
                        size_t i = r.below(all.size());
                        if (all[i]->seq > last_d) break;
                        ct = own(wickr_cipher_result_copy(all[i]->ct.get()));
                        aad = all[i]->aad; has_aad = all[i]->has_aad; seq = all[i]->seq;
                        what = "replay or reordering";
                        break;
                    }
                    case 12: { ct.reset(); what = "no data"; break; }
                    case 13: { // decrypting on an encrypting stream
                        auto o = own(dec(enc.get(), p->ct.get(), p->has_aad, p->aad, last_e + 1 + r.below(ppe)));
                        EXPECT(!o, "decode-on-encoder", "an encrypting stream decrypted a packet");
                        distinct("h:decode on encoder");
                        ev("rejected");
                        break;
                    }
                    case 14: { // old key: packet of epoch n sealed under the key of an earlier epoch
                        if (seq / ppe == 0 || !fresh) break;
                        uint64_t old = r.below(seq / ppe);
                        ref::Stream s = m0.at(old * ppe);
                        Bytes iv = r.bytes(12);
                        auto g = ref::gcm_enc(s.key, iv, has_aad ? aad : Bytes(), p->pt);
                        ct = own(wickr_cipher_result_create(CIPHER_AES256_GCM, mkp(iv), mkp(g.ct), mkp(g.tag)));
                        what = "key of an earlier epoch";
                        break;
                    }
                    default: { // everything random, any later sequence number
                        ct = own(wickr_cipher_result_create(CIPHER_AES256_GCM, mkp(r.bytes(12)), mkp(r.bytes(gen_size(r, 300))), mkp(r.bytes(16))));
                        seq = last_d + 1 + r.below(4 * (uint64_t)ppe);
                        what = "random packet";
                    }
                }
                if (!*what) break;
                std::string old = snap(decx->key->cipher_key) + snap(decx->key->evolution_key);
                auto o = own(dec(decx.get(), ct.get(), has_aad, aad, seq));
                EXPECT(!o, "accepted:" + std::string(what), "a packet with a changed %s was accepted (seq %" PRIu64 ", genuine %" PRIu64 ", last %" PRIu64 ", ppe %u)", what, seq, p->seq, last_d, ppe);
                ev("rejected");
                rejected_since++;
                distinct(fmt("h:%s:%d:%u", what, fresh, ppe));
                break;
            }
            default: { // deliver the next genuine packet, possibly after a gap
                while (di < all.size() && r.chance(1, 5)) { di++; ev("gap"); }
                if (di >= all.size()) break;
                auto &p = all[di++];
                View av(p->aad);
                std::string keep = snap(p->ct->cipher_text) + snap(p->ct->iv) + snap(p->ct->auth_tag);
                auto o = own(dec(decx.get(), p->ct.get(), p->has_aad, p->aad, p->seq));
                REQUIRE(o, "genuine-refused", "genuine packet %" PRIu64 " (last delivered %" PRIu64 ", ppe %u) was refused after %" PRIu64 " rejected operations", p->seq, last_d, ppe, rejected_since);
                EXPECT(eq(o.get(), p->pt), "decode-wrong", "packet %" PRIu64 " decrypted to other bytes", p->seq);
                EXPECT(keep == snap(p->ct->cipher_text) + snap(p->ct->iv) + snap(p->ct->auth_tag), "decode-altered-input", "decrypting altered its input");
                if (rejected_since) ev("delivered_after_rejection");
                rejected_since = 0;
                distinct(fmt("d:%u:%" PRIu64, ppe, std::min<uint64_t>(p->seq / ppe - last_d / ppe, 9)));
                last_d = p->seq;
                ev("delivered");
            }
        }
    }
    // sequence numbers on both sides of 2^32
    if (k % (g_thorough ? 5000 : 5000) == 333) {
        uint32_t big = r.pick<uint32_t>({ 32768, 32767 });
        Bytes ck = r.bytes(32), ek = r.bytes(32);
        auto mkc = [&](wickr_stream_direction d) { return own(wickr_stream_ctx_create(e, wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), big), d)); };
        auto en = mkc(STREAM_DIRECTION_ENCODE), de = mkc(STREAM_DIRECTION_DECODE);
        REQUIRE(en && de, "ctx-create", "creating stream contexts failed");
        mon().budget = 0;
        const uint64_t t = 1ull << 32;
        Pkt before{};
        for (uint64_t q : { (uint64_t)5 + big, t - 2, t - 1, t, t + 1, t + 5, t + 5 + big }) {
            Pkt p;
            p.seq = q;
            p.pt = r.bytes(r.range(1, 90));
            View pv(p.pt);
            p.ct = own(wickr_stream_ctx_encode(en.get(), pv, NULL, q));
            REQUIRE(p.ct, "encode-failed", "encrypting packet %" PRIu64 " failed (ppe %u)", q, big);
            auto o = own(dec(de.get(), p.ct.get(), false, Bytes(), q));
            REQUIRE(o && eq(o.get(), p.pt), "genuine-refused", "genuine packet %" PRIu64 " was refused or altered (ppe %u)", q, big);
            for (uint64_t bad : { q, q - 1, q & 0xffffffffu, (q & 0xffffffffu) + 1, (uint64_t)0 }) {
                if (bad > q) continue;
                auto x = own(dec(de.get(), p.ct.get(), false, Bytes(), bad));
                EXPECT(!x, "accepted:replay around 2^32", "packet %" PRIu64 " was accepted again as %" PRIu64, q, bad);
                auto y = own(wickr_stream_ctx_encode(en.get(), pv, NULL, bad));
                EXPECT(!y, "encode-accepted", "encrypting with the old sequence number %" PRIu64 " succeeded after %" PRIu64, bad, q);
            }
            if (before.ct) { auto x = own(dec(de.get(), before.ct.get(), false, Bytes(), q + 1)); EXPECT(!x, "accepted:sequence number of another epoch", "packet %" PRIu64 " was accepted as %" PRIu64, before.seq, q + 1); }
            else before = std::move(p);
            ev("beyond_32_bits");
        }
    }
    // far epochs reached at once: only the epoch a packet was made for opens it
    if (k % 750 == 77) {
        uint32_t pe = r.pick<uint32_t>({ 1, 2, 3, 7 });
        Bytes ck = r.bytes(32), ek = r.bytes(32);
        auto mkc = [&](wickr_stream_direction d) { return own(wickr_stream_ctx_create(e, wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(ck)), mkp(ek), pe), d)); };
        uint64_t top = r.pick<uint64_t>({ 300, 3000, 20000, 66000 });
        uint64_t e1 = top - r.below(top / 8), e2 = e1 + 1 + r.below(3) * r.below(top / 4);
        if (r.chance(1, 2)) std::swap(e1, e2);
        uint64_t q1 = e1 * pe + r.below(pe), q2 = e2 * pe + r.below(pe);
        auto en = mkc(STREAM_DIRECTION_ENCODE);
        Bytes pt = r.bytes(r.range(1, 90));
        View pv(pt);
        mon().budget = 0;
        if (r.chance(1, 2)) { auto first = own(wickr_stream_ctx_encode(en.get(), pv, NULL, 1 + r.below(e1 < e2 ? q1 - 1 : q2 - 1))); REQUIRE(first, "encode-failed", "encrypting the first packet failed"); }
        auto ct = own(wickr_stream_ctx_encode(en.get(), pv, NULL, q1));
        REQUIRE(ct, "encode-failed", "encrypting packet %" PRIu64 " failed (ppe %u)", q1, pe);
        auto d1 = mkc(STREAM_DIRECTION_DECODE), d2 = mkc(STREAM_DIRECTION_DECODE);
        auto x = own(dec(d2.get(), ct.get(), false, Bytes(), q2));
        EXPECT(!x, "accepted:far epoch", "packet %" PRIu64 " of epoch %" PRIu64 " was accepted as packet %" PRIu64 " of epoch %" PRIu64, q1, e1, q2, e2);
        auto o = own(dec(d1.get(), ct.get(), false, Bytes(), q1));
        EXPECT(o && eq(o.get(), pt), "genuine-refused", "genuine packet %" PRIu64 " of epoch %" PRIu64 " was refused or altered by a new stream", q1, e1);
        ev("far_epochs");
    }
    // refused constructions
    if (k % 8 == 0) {
        uint32_t bad = r.pick<uint32_t>({ 0, 32769, 65536, 0xffffffffu });
        wickr_cipher_key_t *ck = wickr_cipher_key_create(CIPHER_AES256_GCM, mkp(r.bytes(32)));
        wickr_buffer_t *ek = mkp(r.bytes(32));
        wickr_stream_key_t *sk = wickr_stream_key_create(ck, ek, bad);
        EXPECT(!sk, "ppe-accepted", "a stream key with %u packets per evolution was created", bad);
        if (sk) wickr_stream_key_destroy(&sk); else { wickr_cipher_key_destroy(&ck); wickr_buffer_destroy(&ek); }
        // an unauthenticated cipher never makes a stream
        sk = wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_CTR, mkp(r.bytes(32))), mkp(r.bytes(32)), 5);
        if (sk) {
            wickr_stream_ctx_t *c = wickr_stream_ctx_create(e, sk, r.chance(1, 2) ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE);
            EXPECT(!c, "ctr-stream", "a stream was created with an unauthenticated cipher");
            if (c) wickr_stream_ctx_destroy(&c); else wickr_stream_key_destroy(&sk);
        }
        EXPECT(!wickr_stream_ctx_create(e, NULL, STREAM_DIRECTION_ENCODE), "null-key", "a stream was created without a key");
        ev("bad_construction");
    }
}
void prop_fini() {}
}
