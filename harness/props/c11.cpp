// C11: hostile transport input ends in a clean error and never delivers data.
// Random scripts of packets and application calls are played against a real endpoint; a small reference automaton says
// after every step what state the endpoint must be in and what it may have emitted or delivered. The number of provider
// calls made for one packet is bounded.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C11";
static World W;
static wickr_crypto_engine_t E;
void prop_init() { E = mon_engine(); Rng r(g_seed * 137 + 11); W.build(r, 5, E); }
void prop_fini() {}

static const uint64_t WORK_HANDSHAKE = 60, WORK_DATA = 12, WORK_LIMIT = 3000;
enum Phase { NONE, STARTED, UNDECIDED, ACTIVE, DEAD };
static const char *pname[] = { "none", "started", "undecided", "active", "error" };

struct Script {
    std::unique_ptr<Endpoint> x;
    ref::Peer P;                 // the genuine peer
    bool initiator, pinned;
    uint32_t evo;                // what the responder uses
    Phase ph = NONE;
    uint64_t rx_epoch_seq = 0;   // last sequence accepted
    std::vector<Bytes> seen_in;  // packets given to x so far
    std::vector<Bytes> msgs_in;  // genuine messages accepted
    Bytes hs_in;                 // genuine handshake packet waiting to be given
    bool lenient = false;        // from here on only the invariants are checked
    std::vector<std::string> log;
};
static Phase observed(Script &s)
{
    switch (s.x->status()) {
        case TRANSPORT_STATUS_ERROR: return DEAD;
        case TRANSPORT_STATUS_ACTIVE: return ACTIVE;
        default: return s.ph;
    }
}
static std::string tail(Script &s) { std::string o; size_t n = s.log.size(); for (size_t i = n > 7 ? n - 7 : 0; i < n; i++) o += s.log[i] + "; "; return o; }

// runs one library step with everything it did observed
struct Before { size_t tx, rx, st, ver; uint64_t calls; };
static Before before(Script &s, uint64_t limit) { mon().reset(); mon().budget = limit; return Before{ s.x->tx.size(), s.x->rx.size(), s.x->states.size(), s.x->verify.size(), mon().count }; }
static void invariants(Script &s, const Before &b, Phase was, const std::string &what)
{
    Endpoint &x = *s.x;
    s.log.push_back(what);
    int prev = 0;
    for (int q : x.states) {
        REQUIRE(q > prev, "state-order", "state %d reported after %d: %s", q, prev, tail(s).c_str());
        prev = q;
    }
    EXPECT(x.status() == prev, "state-unreported", "state is %d but %d was the last reported: %s", x.status(), prev, tail(s).c_str());
    if (x.status() == TRANSPORT_STATUS_ERROR) EXPECT(x.error() != TRANSPORT_ERROR_NONE, "no-code", "error state without an error code: %s", tail(s).c_str());
    if (was == DEAD) {
        REQUIRE(x.tx.size() == b.tx && x.rx.size() == b.rx && x.verify.size() == b.ver, "alive-after-error", "something came out after the error: %s", tail(s).c_str());
        EXPECT(x.states.size() == b.st, "states-after-error", "a state was reported after the error: %s", tail(s).c_str());
    }
    ev("steps");
}
static void want(Script &s, const Before &b, Phase ph, size_t tx, size_t rx, const std::string &what)
{
    Endpoint &x = *s.x;
    if (s.lenient) { if (x.status() == TRANSPORT_STATUS_ERROR) s.ph = DEAD; else if (x.status() == TRANSPORT_STATUS_ACTIVE) s.ph = ACTIVE; return; }
    int st = ph == DEAD ? TRANSPORT_STATUS_ERROR : ph == ACTIVE ? TRANSPORT_STATUS_ACTIVE : s.initiator ? (ph == NONE ? TRANSPORT_STATUS_NONE : TRANSPORT_STATUS_INITIAL_HANDSHAKE) : TRANSPORT_STATUS_NONE;
    REQUIRE(x.status() == st, ph == DEAD ? "no-error" : "wrong-state", "in state %d (error %d) instead of %d (%s) after: %s", x.status(), x.error(), st, pname[ph], tail(s).c_str());
    REQUIRE(x.tx.size() - b.tx == tx, "emitted", "%zu packets emitted instead of %zu after: %s", x.tx.size() - b.tx, tx, tail(s).c_str());
    REQUIRE(x.rx.size() - b.rx == rx, "delivered", "%zu buffers delivered instead of %zu after: %s", x.rx.size() - b.rx, rx, tail(s).c_str());
    s.ph = ph;
    (void)what;
}
static void work(Script &s, const std::string &what, uint64_t limit)
{
    EXPECT(mon().count <= limit && !mon().over_budget, "work", "%" PRIu64 "%s provider calls for one input (%s): %s", mon().count, mon().over_budget ? "+" : "", what.c_str(), tail(s).c_str());
    mon().budget = 0;
    evals(1);
}

static uint64_t ppe(Script &s) { return s.initiator ? s.P.ppe_send : s.P.ppe_recv; }
// gives raw bytes to the endpoint; returns what happened before
static void feed_bad(Rng &r, Script &s, const Bytes &p, const char *kind, bool lenient = false)
{
    Phase was = s.ph;
    // a data packet can name a sequence number far ahead: the library evolves the key up to it before it can authenticate
    uint64_t steps = 0;
    if (was == ACTIVE && p.size() > 9 && (p[0] >> 4) == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) {
        uint64_t seq;
        memcpy(&seq, p.data() + 1, 8);
        if (s.lenient) steps = seq;      // the interval is the hostile peer's choice
        else if (ppe(s) && seq > s.rx_epoch_seq) steps = seq / ppe(s) - s.rx_epoch_seq / ppe(s);
    }
    Before b = before(s, WORK_LIMIT);
    s.x->feed(p);
    uint64_t used = mon().count;
    bool over = mon().over_budget;
    mon().budget = 0;
    mon().over_budget = false;
    if (steps > WORK_LIMIT / 2 && (over || used > WORK_DATA)) viol("unbounded-work:data-seq", fmt("a %zu byte unauthenticated packet naming a sequence number %" PRIu64 " epochs ahead makes the endpoint evolve its key that many times before rejecting it", p.size(), steps));
    else EXPECT(!over && used <= WORK_HANDSHAKE + steps, "work", "%" PRIu64 "%s provider calls for one hostile packet (%s, %zu bytes, %" PRIu64 " epochs ahead): %s", used, over ? "+" : "", kind, p.size(), steps, tail(s).c_str());
    s.seen_in.push_back(p);
    invariants(s, b, was, fmt("hostile packet (%s, %zu bytes, in %s)", kind, p.size(), pname[was]));
    ev("hostile_packets");
    distinct(fmt("%s:%s:%d:%d", kind, pname[was], s.initiator, s.pinned));
    if (r.chance(1, 400)) sample(fmt("%s in state %s -> error %d after %" PRIu64 " provider calls", kind, pname[was], s.x->error(), used));
    if (lenient) { s.lenient = true; if (s.x->status() == TRANSPORT_STATUS_ERROR) s.ph = DEAD; else if (s.x->status() == TRANSPORT_STATUS_ACTIVE) s.ph = ACTIVE; if (s.x->rx.size() != b.rx) viol("delivered", fmt("data delivered from a hostile packet (%s)", kind)); return; }
    want(s, b, DEAD, 0, 0, kind);
}
static Phase after_hs(Script &s) { return s.pinned ? ACTIVE : s.x->policy == Endpoint::APPROVE ? ACTIVE : s.x->policy == Endpoint::REFUSE ? DEAD : UNDECIDED; }

static bool need_identity(const Bytes &seed)
{
    ref::PR h(sub(seed, 10, seed.size() - 153));
    Bytes b;
    uint64_t n = 0;
    h.bytes(2, b);
    ref::PR q(b);
    q.num(4, n);
    return n != 0;
}
static Script make(Rng &r)
{
    Script s;
    Actor &A = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    s.initiator = r.chance(1, 2);
    s.pinned = r.chance(1, 3);
    s.P.me = ref_chain(B_.dev.chain());
    s.evo = r.pick<uint32_t>({ 1, 1, 2, 3, 5, 16, 512, 32768 });
    s.x = make_ep(s.initiator ? "initiator" : "responder", E, A.dev.chain(), s.pinned ? B_.pub.get() : NULL, s.evo);
    s.x->policy = r.pick<Endpoint::Policy>({ Endpoint::APPROVE, Endpoint::APPROVE, Endpoint::APPROVE, Endpoint::APPROVE, Endpoint::DEFER, Endpoint::DEFER, Endpoint::REFUSE });
    if (!s.initiator) s.hs_in = s.P.start(r, r.chance(1, 2));
    return s;
}
static bool take_answer(Script &s)
{
    // a responder has emitted its answer: the peer completes its side
    Bytes a = s.x->tx.back();
    ref::Chain known = ref_chain(wickr_transport_ctx_get_local_identity_ptr(s.x->t.get()));
    bool asked = need_identity(s.P.pkt[0]);
    bool ok = s.P.finish(a, asked ? nullptr : &known);
    EXPECT(ok, "answer-unusable", "the genuine peer could not use the answer: %s", s.P.err.c_str());
    s.x->tx_taken = s.x->tx.size();
    return ok;
}
static void genuine_handshake(Rng &r, Script &s)
{
    Phase was = s.ph;
    if (s.hs_in.empty()) return;
    Before b = before(s, WORK_LIMIT);
    s.x->feed(s.hs_in);
    uint64_t used = mon().count;
    mon().budget = 0;
    EXPECT(used <= WORK_HANDSHAKE, "work", "%" PRIu64 " provider calls for one handshake packet", used);
    s.seen_in.push_back(s.hs_in);
    invariants(s, b, was, fmt("genuine handshake packet in %s", pname[was]));
    bool expected = (s.initiator && was == STARTED) || (!s.initiator && was == NONE);
    Phase n = expected ? after_hs(s) : DEAD;
    want(s, b, n, n == ACTIVE && !s.initiator ? 1 : 0, 0, "handshake");
    if (!s.lenient && n == ACTIVE && !s.initiator && !take_answer(s)) throw CaseAbort();
    (void)r;
    ev("genuine_handshakes");
}
static void genuine_data(Rng &r, Script &s, bool gap)
{
    Phase was = s.ph;
    if (was != ACTIVE || s.lenient) return;
    Bytes m = gen_bytes(r, 200);
    uint64_t seq = std::max(s.P.tx_seq, s.rx_epoch_seq) + 1 + (gap ? r.range(1, 20) : 0);
    Bytes p = s.P.send(r, m, seq);
    Before b = before(s, WORK_LIMIT);
    s.x->feed(p);
    uint64_t used = mon().count;
    mon().budget = 0;
    uint64_t steps = seq / ppe(s) - s.rx_epoch_seq / ppe(s);
    EXPECT(used <= WORK_DATA + steps, "work", "%" PRIu64 " provider calls for one data packet (%" PRIu64 " epochs ahead)", used, steps);
    s.seen_in.push_back(p);
    invariants(s, b, was, fmt("genuine data %" PRIu64, seq));
    want(s, b, ACTIVE, 0, 1, "data");
    if (!s.lenient) REQUIRE(s.x->rx.back() == m, "delivered-wrong", "genuine data was delivered altered");
    s.rx_epoch_seq = seq;
    s.msgs_in.push_back(m);
    ev("genuine_data");
}
static void send_app(Rng &r, Script &s)
{
    Phase was = s.ph;
    int kind = (int)r.below(12);
    Bytes m = kind == 0 ? Bytes() : gen_bytes(r, 100);
    Before b = before(s, WORK_LIMIT);
    if (kind == 1) wickr_transport_ctx_process_tx_buffer(s.x->t.get(), NULL); else s.x->send(m);
    invariants(s, b, was, fmt("send(%s) in %s", kind == 1 ? "NULL" : kind == 0 ? "empty" : "data", pname[was]));
    work(s, "send", WORK_DATA);
    if (kind == 0 && was == ACTIVE) {           // either refused for good or really sent
        if (s.x->status() == TRANSPORT_STATUS_ACTIVE) { s.lenient = true; return; }
        want(s, b, DEAD, 0, 0, "send");
        return;
    }
    bool ok = was == ACTIVE && kind != 1;
    want(s, b, ok ? ACTIVE : DEAD, ok ? 1 : 0, 0, "send");
    if (ok && !s.lenient) {
        Bytes got;
        EXPECT(s.P.recv(s.x->tx.back(), got) && got == m, "sent-wrong", "the peer could not read what was sent: %s", s.P.err.c_str());
    }
    ev("sends");
}
static void start_app(Rng &r, Script &s)
{
    Phase was = s.ph;
    Before b = before(s, WORK_LIMIT);
    s.x->start();
    invariants(s, b, was, fmt("start in %s", pname[was]));
    work(s, "start", WORK_HANDSHAKE);
    if (was == NONE && s.initiator) {
        want(s, b, STARTED, 1, 0, "start");
        if (s.lenient || !s.x->has_tx()) return;
        Bytes seed = s.x->take();
        ref::Chain mine = ref_chain(wickr_transport_ctx_get_local_identity_ptr(s.x->t.get()));
        REQUIRE(s.P.respond(r, seed, s.evo, s.hs_in), "baseline", "the reference could not answer: %s", s.P.err.c_str());
        return;
    }
    if (was == NONE) {       // a would-be responder starts instead: it is an initiator now, the peer's seed is not an answer
        s.initiator = true;
        want(s, b, STARTED, 1, 0, "start");
        s.P = ref::Peer{ s.P.me };
        s.hs_in.clear();
        if (s.lenient || !s.x->has_tx()) return;
        Bytes seed = s.x->take();
        REQUIRE(s.P.respond(r, seed, s.evo, s.hs_in), "baseline", "the reference could not answer: %s", s.P.err.c_str());
        return;
    }
    want(s, b, DEAD, 0, 0, "start");
}
static void decide_app(Rng &r, Script &s)
{
    if (!s.x->pending) return;
    Phase was = s.ph;
    bool ok = r.chance(2, 3);
    Before b = before(s, WORK_LIMIT);
    s.x->decide(ok);
    invariants(s, b, was, fmt("decision %d in %s", ok, pname[was]));
    work(s, "decision", WORK_HANDSHAKE);
    ev("decisions");
    if (was == UNDECIDED) {
        want(s, b, ok ? ACTIVE : DEAD, ok && !s.initiator ? 1 : 0, 0, "decision");
        if (ok && !s.initiator && !s.lenient && !take_answer(s)) throw CaseAbort();
        return;
    }
    // late repetitions may be ignored or fail the endpoint, nothing else
    if (s.x->status() == TRANSPORT_STATUS_ERROR) want(s, b, DEAD, 0, 0, "decision"); else want(s, b, was, 0, 0, "decision");
}
static void copy_app(Script &s)
{
    auto c = own(wickr_transport_ctx_copy(s.x->t.get()));
    REQUIRE(c, "copy", "copying a transport failed in %s", pname[s.ph]);
    s.x->t = std::move(c);
    s.log.push_back("copy");
    ev("copied");
}
// handshake content altered by its own author and signed again
static Bytes reauthor(Rng &r, const Bytes &pkt, const ref::Chain &signer, std::string *what)
{
    Bytes body = sub(pkt, 10, pkt.size() - 153), meta = sub(pkt, 0, 10);
    switch (r.below(5)) {
        case 0: meta = ref::hs_meta(TRANSPORT_MAC_TYPE_EC_P521, (uint8_t)r.pick({ 0, 2, 255 })); *what = "version"; break;
        case 1: meta = ref::hs_meta(TRANSPORT_MAC_TYPE_EC_P521, 1, r.u64()); *what = "flags"; break;
        case 2: { // drop, duplicate, reorder or swap fields
            ref::PR h(body);
            if (h.f.empty()) break;
            ref::PR q(h.f.back().s);
            int fld = h.f.back().num;
            ref::PW o, hh;
            std::vector<ref::PF> f = q.f;
            if (!f.empty()) switch (r.below(4)) {
                case 0: f.erase(f.begin() + r.below(f.size())); *what = "field dropped"; break;
                case 1: f.push_back(f[r.below(f.size())]); *what = "field repeated"; break;
                case 2: { auto &g = f[r.below(f.size())]; if (g.wire == 2) g.s = r.chance(1, 2) ? Bytes() : mutate(r, g.s); else g.u = gen_u64(r); *what = "field value"; break; }
                default: { size_t i = r.below(f.size()), j = r.below(f.size()); std::swap(f[i].s, f[j].s); *what = "field values swapped"; break; }
            }
            for (auto &g : f) if (g.wire == 2) o.s(g.num, g.s); else if (g.wire == 0) o.u(g.num, g.u);
            if (r.chance(1, 6)) { fld = fld == 2 ? 3 : 2; *what += ", other kind"; }
            hh.s(fld, o.b);
            if (r.chance(1, 6)) { hh.s(fld == 2 ? 3 : 2, r.chance(1, 2) ? o.b : Bytes()); *what += ", both kinds"; }
            body = hh.b;
            break;
        }
        case 3: body.clear(); body = r.chance(1, 2) ? Bytes() : r.bytes(r.range(1, 100)); *what = "other body"; break;
        default: { std::string w; body = mutate(r, body, &w); *what = "body bytes"; break; }
    }
    return ref::sign_transport(cat({ meta, body }), signer.node.key.der);
}
static Bytes evil_root_key(Rng &r, Script &s, const Bytes &seed, std::string *what)
{
    // a genuine, approved peer that answers with odd key material
    ref::PR h(sub(seed, 10, seed.size() - 153));
    Bytes sb, ep;
    h.bytes(2, sb);
    ref::PR q(sb);
    q.bytes(3, ep);
    ref::Chain other = ref_chain(wickr_transport_ctx_get_local_identity_ptr(s.x->t.get()));
    ref::PW rk, rd;
    size_t len = 32;
    uint64_t cid = CIPHER_AES256_GCM.cipher_id, a = 5, b = 5;
    switch (r.below(6)) {
        case 0: len = r.pick<size_t>({ 0, 1, 31, 33, 64 }); *what = "secret length"; break;
        case 1: cid = r.pick<uint64_t>({ (uint64_t)CIPHER_AES256_CTR.cipher_id, 2, 3, 255, 0xffffffff }); *what = "cipher"; break;
        case 2: a = r.pick<uint64_t>({ 0, 32769, 0xffffffff, 0x100000000ull }); *what = "interval"; break;
        case 3: b = r.pick<uint64_t>({ 0, 32769, 0xffffffff, 0x100000000ull }); *what = "interval"; break;
        case 4: a = b = 0; *what = "intervals"; break;
        default: *what = "missing field"; break;
    }
    rk.s(1, r.bytes(len)).u(2, cid).u(3, a);
    if (*what != "missing field") rk.u(4, b);
    rd.s(1, rk.b);
    ref::Key eph = ref::ec_gen(r);
    Bytes x;
    ref::ecdh(eph.der, ep, x);
    Bytes k = ref::hkdf(512, x, Bytes(), ref::Peer::info(ref::enc_chain(other), ref::enc_chain(s.P.me), ep, eph.pub), 32);
    ref::PW rs, hh;
    rs.s(2, eph.pub).s(3, ref::gcm_box(k, r.bytes(12), r.chance(1, 8) ? r.bytes(20) : rd.b));
    if (!s.pinned) rs.s(4, ref::enc_chain(s.P.me));
    hh.s(3, rs.b);
    return ref::sign_transport(cat({ ref::hs_meta(), hh.b }), s.P.me.node.key.der);
}
// a data packet from the genuine peer that breaks a rule
static Bytes evil_data(Rng &r, Script &s, std::string *what)
{
    ref::Stream st = s.P.tx;
    uint64_t seq = s.rx_epoch_seq + 1;
    Bytes m = r.bytes(r.range(1, 40)), meta, body;
    int k = (int)r.below(7);
    uint64_t use = seq;
    st.to_seq(use);
    meta = ref::data_meta(seq);
    switch (k) {
        case 0: meta[0] = (uint8_t)((TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT << 4) | r.pick<int>({ TRANSPORT_MAC_TYPE_NONE, TRANSPORT_MAC_TYPE_EC_P521 })); body = ref::gcm_box(st.key, r.bytes(12), m, meta); if (r.chance(2, 3)) { Bytes t = r.bytes(143); body.insert(body.end(), t.begin(), t.end()); } *what = "data with another MAC type"; break;
        case 1: { Bytes iv = r.bytes(16); body = ref::cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), ref::ctr(st.key, iv, m)); *what = "data under an unauthenticated cipher"; break; }
        case 2: body = ref::gcm_box(st.key, r.bytes(12), m); *what = "data without associated data"; break;
        case 3: body = ref::gcm_box(st.key, r.bytes(12), m, ref::data_meta(seq + 1)); *what = "data with another sequence number bound"; break;
        case 4: { ref::Stream n = st; n.step(); body = ref::gcm_box(n.key, r.bytes(12), m, meta); *what = "data under the next epoch's key"; break; }
        case 5: { uint64_t old = s.rx_epoch_seq ? r.below(s.rx_epoch_seq + 1) : 0; meta = ref::data_meta(old); body = ref::gcm_box(s.P.tx.key, r.bytes(12), m, meta); *what = "data with an old sequence number"; break; }
        default: { meta[0] = (uint8_t)((TRANSPORT_PAYLOAD_TYPE_HANDSHAKE << 4) | TRANSPORT_MAC_TYPE_AUTH_CIPHER); body = ref::gcm_box(st.key, r.bytes(12), m, meta); *what = "data typed as handshake"; break; }
    }
    return cat({ meta, body });
}
static void hostile(Rng &r, Script &s)
{
    std::string what;
    for (int tries = 0; tries < 5; tries++) switch (r.below(17)) {
        case 0: { Bytes p = r.bytes(r.range(0, 300)); if (p.size() > 153 && (p[0] >> 4) == 0) p[0] |= 0x30; feed_bad(r, s, p, "random bytes"); return; }
        case 1: { Bytes p = gen_bytes(r, 4000); feed_bad(r, s, p, "shaped bytes"); return; }
        case 2: {
            if (s.hs_in.empty()) continue;
            Bytes m = mutate(r, s.hs_in);
            bool same_content = m.size() == s.hs_in.size() && std::equal(m.begin(), m.end() - 143, s.hs_in.begin());
            feed_bad(r, s, m, "altered handshake packet", same_content);
            return;
        }
        case 3: { if (s.hs_in.empty()) continue; feed_bad(r, s, sub(s.hs_in, 0, r.below(s.hs_in.size())), "truncated handshake packet"); return; }
        case 4: { if (s.ph != ACTIVE || s.lenient) continue; ref::Peer c = s.P; Bytes g = c.send(r, r.bytes(30), s.rx_epoch_seq + 1); Bytes m = mutate(r, g); feed_bad(r, s, m, "altered data packet"); return; }
        case 5: { if (s.seen_in.empty()) continue; Bytes p = s.seen_in[r.below(s.seen_in.size())]; if (s.ph == NONE || (s.ph == STARTED && p == s.hs_in)) continue; feed_bad(r, s, p, "packet seen before"); return; }
        case 6: { if (s.x->tx.empty()) continue; feed_bad(r, s, s.x->tx[r.below(s.x->tx.size())], "own packet"); return; }
        case 7: { // type and MAC combinations around arbitrary bodies
            Bytes p = cat({ Bytes{ (uint8_t)r.u64() }, r.bytes(8), gen_bytes(r, 400) });
            if (r.chance(1, 2)) p[0] = (uint8_t)((r.below(3) << 4) | r.below(4));
            uint64_t seq = r.pick<uint64_t>({ 0, 1, s.rx_epoch_seq, s.rx_epoch_seq + 1, s.rx_epoch_seq + 40 });
            memcpy(p.data() + 1, &seq, 8);
            feed_bad(r, s, p, "made-up packet");
            return;
        }
        case 8: { // well-formed data packet under a foreign key
            uint64_t seq = r.pick<uint64_t>({ 0, s.rx_epoch_seq, s.rx_epoch_seq + 1, s.rx_epoch_seq + 2, s.rx_epoch_seq + r.range(1, 1000) });
            Bytes meta = ref::data_meta(seq);
            feed_bad(r, s, cat({ meta, ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(r.range(1, 50)), meta) }), "data under a foreign key");
            return;
        }
        case 9: { // far ahead
            if (!r.chance(1, 6)) continue;
            uint64_t seq = r.pick<uint64_t>({ 1ull << 40, ~0ull, 1ull << 63, 1ull << 32 });
            Bytes meta = ref::data_meta(seq);
            feed_bad(r, s, cat({ meta, ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(20), meta) }), "data far ahead under a foreign key");
            return;
        }
        case 10: case 11: {
            ref::Chain m = s.pinned ? s.P.me : r.chance(1, 2) ? s.P.me : ref::gen_chain(r);
            Bytes base;
            ref::Peer Q;
            Q.me = m;
            if (s.initiator) { if (s.ph != STARTED || s.lenient) continue; if (!Q.respond(r, s.x->tx[0], 5, base)) continue; } else base = Q.start(r, r.chance(1, 2));
            Bytes p = reauthor(r, base, m, &what);
            // another protocol version, correctly signed, has only one outcome
            feed_bad(r, s, p, ("handshake with " + what).c_str(), what != "version" && (s.ph == NONE || s.ph == STARTED));
            return;
        }
        case 15: {                           // a properly signed handshake packet of the other kind
            if ((s.ph != NONE && s.ph != STARTED) || s.lenient) continue;
            ref::Peer Q, R;
            Q.me = s.pinned || r.chance(1, 2) ? s.P.me : ref::gen_chain(r);
            R.me = r.chance(1, 2) ? s.P.me : ref::gen_chain(r);
            Bytes base;
            if (s.ph == STARTED) base = Q.start(r, r.chance(1, 2));
            else if (!Q.respond(r, R.start(r, r.chance(1, 2)), 5, base)) continue;
            feed_bad(r, s, base, s.ph == STARTED ? "a seed instead of an answer" : "an answer instead of a seed");
            ev("wrong_kind");
            return;
        }
        case 12: {
            if (s.ph != STARTED || s.lenient) continue;
            Bytes p = evil_root_key(r, s, s.x->tx[0], &what);
            feed_bad(r, s, p, ("answer with odd " + what).c_str(), true);
            return;
        }
        case 13: case 14: {
            if (s.ph != ACTIVE || s.lenient) continue;
            Bytes p = evil_data(r, s, &what);
            feed_bad(r, s, p, what.c_str());
            return;
        }
        default: {
            Phase was = s.ph;
            Before b = before(s, WORK_LIMIT);
            wickr_transport_ctx_process_rx_buffer(s.x->t.get(), NULL);
            invariants(s, b, was, fmt("NULL packet in %s", pname[was]));
            work(s, "NULL packet", 0);
            want(s, b, DEAD, 0, 0, "NULL packet");
            return;
        }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    Script s = make(r);
    int n = (int)r.range(1, 25);
    unsigned hostility = (unsigned)r.pick({ 1, 3, 6, 12 });
    if (s.initiator && r.chance(9, 10)) start_app(r, s);
    if (k % 3 == 0) { // get to an active conversation first
        s.x->policy = Endpoint::APPROVE;
        if (s.initiator && s.ph == NONE) start_app(r, s);
        genuine_handshake(r, s);
        for (int i = 0; i < (int)r.below(12); i++) genuine_data(r, s, r.chance(1, 4));
    }
    int post = 0;
    for (int i = 0; i < n && post < 6; i++) {
        if (s.ph == DEAD) post++;
        if (r.chance(hostility, 24)) { hostile(r, s); continue; }
        switch (r.below(12)) {
            case 0: case 1: case 2: if (s.ph == NONE || s.ph == STARTED || r.chance(1, 10)) { genuine_handshake(r, s); break; } // fall through
            case 3: case 4: case 5: genuine_data(r, s, r.chance(1, 5)); break;
            case 6: case 7: if (s.ph == ACTIVE || r.chance(1, 3)) send_app(r, s); break;
            case 8: case 9: if (s.ph == UNDECIDED || r.chance(1, 3)) decide_app(r, s); break;
            case 10: if (r.chance(1, 4)) start_app(r, s); break;
            default: if (r.chance(1, 2)) copy_app(s); break;
        }
    }
    EXPECT(s.x->rx.size() <= s.msgs_in.size() || s.lenient, "delivered", "more data delivered than genuinely sent");
    ev("scripts");
    if (s.ph == DEAD) ev("ended_in_error");
    (void)observed;
}
} // namespace v
