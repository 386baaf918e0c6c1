// C09: honest endpoints agree on keys and deliver every buffer exactly once, unmodified and in order.
// Pairs of real endpoints (and one real endpoint with the independent implementation) run random schedules; the log of
// everything sent, emitted and delivered is compared at the end and at every step.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C09";
static World W;
void prop_init() { Rng r(g_seed * 77 + 9); W.build(r, 6, mon_engine()); W.odd(r, 1); W.odd(r, 4); }
void prop_fini() {}

static const uint32_t evos[] = { 0, 1, 1, 2, 3, 5, 16, 64, 511, 512, 513, 32767, 32768 };
static uint32_t gen_evo(Rng &r) { return evos[r.below(sizeof evos / sizeof *evos)]; }

// one direction's log
struct Log {
    std::vector<Bytes> sent;
    size_t checked = 0;
};
// an endpoint with more elaborate application behaviour
struct Sess {
    std::unique_ptr<Endpoint> ep;
    Log out;
    bool ref_side = false;
};

static void check_rx(Endpoint &rx, Log &from, const char *who)
{
    REQUIRE(rx.rx.size() <= from.sent.size(), "delivered-extra", "%s delivered %zu buffers although only %zu were sent", who, rx.rx.size(), from.sent.size());
    for (; from.checked < rx.rx.size(); from.checked++) {
        REQUIRE(rx.rx[from.checked] == from.sent[from.checked], "delivered-wrong", "%s: buffer %zu was delivered altered or out of order (%zu bytes instead of %zu)", who, from.checked, rx.rx[from.checked].size(), from.sent[from.checked].size());
        ev("delivered");
    }
}
static void check_identity(Endpoint &x, const wickr_identity_chain_t *peer, bool pinned)
{
    EXPECT(x.verify.size() == (pinned ? 0u : 1u), "verify-count", "%s: the identity callback was consulted %zu times (peer %s)", x.name, x.verify.size(), pinned ? "pinned" : "not pinned");
    if (!x.verify.empty()) {
        EXPECT(x.verify[0] == chain_bytes(peer), "verify-wrong-chain", "%s: the identity callback got a chain that is not the peer's", x.name);
        EXPECT(!x.verify_priv[0], "verify-private", "%s: the identity callback got private keys", x.name);
    }
}
static Bytes gen_msg(Rng &r) { return r.chance(1, 2000) ? r.bytes(r.range(70000, 3000000)) : r.chance(1, 60) ? r.bytes(r.range(5000, 70000)) : r.chance(1, 6) ? Bytes(r.range(1, 3), 0) : gen_bytes(r, 300); }

static void lib_lib(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    size_t ia = r.below(W.size()), ib = r.below(W.size());
    Actor &A = W[ia], &B_ = W[ib];
    bool pinA = r.chance(1, 3), pinB = r.chance(1, 3);       // pinA: a knows b
    uint32_t ea = gen_evo(r), eb = gen_evo(r);
    auto a = make_ep("initiator", e, A.dev.chain(), pinA ? B_.pub.get() : NULL, ea);
    auto b = make_ep("responder", e, B_.dev.chain(), pinB ? A.pub.get() : NULL, eb);
    bool deferA = r.chance(1, 3), deferB = r.chance(1, 3);
    if (deferA) a->policy = Endpoint::DEFER;
    if (deferB) b->policy = Endpoint::DEFER;
    a->start();
    EXPECT(a->tx.size() == 1 && a->states == std::vector<int>{ TRANSPORT_STATUS_INITIAL_HANDSHAKE }, "start", "starting emits %zu packets and reports %zu states", a->tx.size(), a->states.size());
    auto maybe_copy = [&](std::unique_ptr<Endpoint> &x) {
        if (!r.chance(1, 8)) return;
        auto c = own(wickr_transport_ctx_copy(x->t.get()));
        REQUIRE(c, "copy", "copying a transport failed");
        x->t = std::move(c);       // the original is destroyed, the copy goes on
        ev("copied");
    };
    maybe_copy(a);
    b->feed(a->take());
    maybe_copy(b);
    if (deferB && !pinB) {
        EXPECT(b->tx.empty() && b->status() != TRANSPORT_STATUS_ACTIVE && b->status() != TRANSPORT_STATUS_ERROR, "early-answer", "the responder went on before the identity decision");
        b->decide(true);
        ev("deferred_decisions");
    }
    REQUIRE(b->status() == TRANSPORT_STATUS_ACTIVE && b->tx.size() == 1, "responder-not-active", "the responder is in state %d (error %d) after a genuine seed (pinned %d, evo %u)", b->status(), b->error(), pinB, eb);
    maybe_copy(b);
    a->feed(b->take());
    maybe_copy(a);
    if (deferA && !pinA) {
        EXPECT(a->status() != TRANSPORT_STATUS_ACTIVE && a->status() != TRANSPORT_STATUS_ERROR, "early-active", "the initiator went on before the identity decision");
        a->decide(true);
        ev("deferred_decisions");
    }
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE, "initiator-not-active", "the initiator is in state %d (error %d) after a genuine answer (pinned %d, evo %u)", a->status(), a->error(), pinA, eb);
    check_identity(*a, B_.dev.chain(), pinA);
    check_identity(*b, A.dev.chain(), pinB);
    EXPECT(a->states == (std::vector<int>{ TRANSPORT_STATUS_INITIAL_HANDSHAKE, TRANSPORT_STATUS_ACTIVE }) && b->states == std::vector<int>{ TRANSPORT_STATUS_ACTIVE }, "states", "unexpected state reports in a normal handshake");
    EXPECT(a->error() == TRANSPORT_ERROR_NONE && b->error() == TRANSPORT_ERROR_NONE, "error-code", "an error code after a normal handshake");
    EXPECT(!a->has_tx() && !b->has_tx(), "extra-packet", "the handshake emitted extra packets");
    ev("sessions");

    Log ab, ba;
    uint32_t ppe = eb ? eb : PACKET_PER_EVO_DEFAULT;
    int n = (int)r.range(10, 120);
    if (ppe >= 511 && ppe < 600 && r.chance(1, 6)) n = (int)(ppe * 3 / 2 * 3);
    if (g_thorough && ppe > 30000 && r.chance(1, 10)) n = 100000;
    int lead = (int)r.range(1, 40);
    for (int i = 0; i < n; i++) {
        switch (r.below(5)) {
            case 0: case 1: { Bytes m = gen_msg(r); size_t was = a->tx.size(); a->send(m); ab.sent.push_back(m); EXPECT(a->tx.size() == was + 1, "send-emits", "one send emitted %zu packets", a->tx.size() - was); ev("sent"); break; }
            case 2: { Bytes m = gen_msg(r); size_t was = b->tx.size(); b->send(m); ba.sent.push_back(m); EXPECT(b->tx.size() == was + 1, "send-emits", "one send emitted %zu packets", b->tx.size() - was); ev("sent"); break; }
            case 3: for (int j = 0; j < lead && a->has_tx(); j++) b->feed(a->take()); check_rx(*b, ab, "responder"); break;
            default: for (int j = 0; j < lead && b->has_tx(); j++) a->feed(b->take()); check_rx(*a, ba, "initiator"); break;
        }
        REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && b->status() == TRANSPORT_STATUS_ACTIVE, "session-lost", "an honest session ended in error after %d steps (%d/%d, errors %d/%d, evo %u)", i, a->status(), b->status(), a->error(), b->error(), ppe);
        if (r.chance(1, 40)) { maybe_copy(a); maybe_copy(b); }
    }
    pump(*a, *b, 1000000);
    check_rx(*b, ab, "responder");
    check_rx(*a, ba, "initiator");
    REQUIRE(a->rx.size() == ba.sent.size() && b->rx.size() == ab.sent.size(), "lost", "%zu of %zu and %zu of %zu buffers were delivered (evo %u)", a->rx.size(), ba.sent.size(), b->rx.size(), ab.sent.size(), ppe);
    EXPECT(a->states.size() == 2 && b->states.size() == 1, "states", "states were reported during an undisturbed conversation");
    distinct(fmt("ll:%d%d%d%d:%u:%d", pinA, pinB, deferA, deferB, ppe, (int)std::min<size_t>(ab.sent.size() / (ppe ? ppe : 1), 6)));
    // no packet appears twice on the wire
    std::set<Bytes> wire;
    for (auto *x : { a.get(), b.get() }) for (auto &p : x->tx) EXPECT(wire.insert(p).second, "packet-repeated", "the same packet was emitted twice");
}

// everything is delivered from inside the callbacks: an in-process connection
static thread_local Endpoint *g_peer_of[2];
static thread_local std::vector<Bytes> *g_replies;
static void sync_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d)
{
    auto *e = ep_of(c);
    Bytes p = B(d);
    wickr_buffer_destroy(&d);
    e->tx.push_back(p);
    (e == g_peer_of[0] ? g_peer_of[1] : g_peer_of[0])->feed(p);
}
static Bytes echo(const Bytes &m) { Bytes o = m; o[0] = 0xee; for (auto &x : o) x ^= 0x55; o[0] = 'E'; return o; }
static void sync_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d)
{
    auto *e = ep_of(c);
    Bytes p = B(d);
    wickr_buffer_destroy(&d);
    e->rx.push_back(p);
    if (p[0] == 'Q') e->send(echo(p));      // answers from inside the receive callback
}
static thread_local Bytes g_hello;
static void sync_state(const wickr_transport_ctx_t *c, wickr_transport_status s)
{
    auto *e = ep_of(c);
    e->states.push_back((int)s);
    if (s == TRANSPORT_STATUS_ACTIVE && e == g_peer_of[0] && !g_hello.empty()) e->send(g_hello);
}
static void in_process(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    Actor &A = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    wickr_transport_callbacks_t cb;
    cb.tx = sync_tx; cb.rx = sync_rx; cb.on_state = sync_state; cb.on_identity_verify = ep_verify;
    uint32_t eb = gen_evo(r);
    auto mkep = [&](const char *name, Actor &x, const wickr_identity_chain_t *pin) {
        std::unique_ptr<Endpoint> p(new Endpoint);
        p->name = name;
        p->t = own(wickr_transport_ctx_create(e, wickr_identity_chain_copy(x.dev.chain()), pin ? wickr_identity_chain_copy(pin) : NULL, eb, cb, p.get()));
        REQUIRE(p->t, "transport-create", "creating a transport failed");
        return p;
    };
    auto a = mkep("initiator", A, r.chance(1, 2) ? B_.pub.get() : NULL), b = mkep("responder", B_, r.chance(1, 2) ? A.pub.get() : NULL);
    g_peer_of[0] = a.get();
    g_peer_of[1] = b.get();
    g_hello = r.chance(1, 2) ? cat({ Bytes{ 'H' }, r.bytes(9) }) : Bytes();      // sent from inside the initiator's report of becoming active
    a->start();
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && b->status() == TRANSPORT_STATUS_ACTIVE, "in-process-active", "two directly connected endpoints are in states %d and %d", a->status(), b->status());
    Log ab, ba;
    if (!g_hello.empty()) ab.sent.push_back(g_hello);
    for (int i = 0, n = (int)r.range(5, 80); i < n; i++) {
        bool q = r.chance(1, 2), fromA = r.chance(1, 2);
        Bytes m = cat({ Bytes{ (uint8_t)(q ? 'Q' : 'M') }, gen_bytes(r, 100) });
        (fromA ? ab : ba).sent.push_back(m);
        if (q) (fromA ? ba : ab).sent.push_back(echo(m));
        (fromA ? a : b)->send(m);
        check_rx(*b, ab, "responder");
        check_rx(*a, ba, "initiator");
        ev("sent");
    }
    REQUIRE(a->rx.size() == ba.sent.size() && b->rx.size() == ab.sent.size(), "lost", "buffers of a directly connected session were lost");
    ev("in_process_sessions");
    distinct(fmt("ip:%u:%d", eb, !g_hello.empty()));
    g_hello.clear();
}
// an application that sends as soon as it is told that the transport is active, on the answering side
static void early_sender(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    auto a = make_ep("initiator", e, W[0].dev.chain(), NULL, 4);
    wickr_transport_callbacks_t cb = ep_callbacks();
    cb.on_state = [](const wickr_transport_ctx_t *c, wickr_transport_status s) { ep_state(c, s); if (s == TRANSPORT_STATUS_ACTIVE) { auto *x = ep_of(c); x->send(Bytes{ 'e', 'a', 'r', 'l', 'y' }); } };
    std::unique_ptr<Endpoint> b(new Endpoint);
    b->t = own(wickr_transport_ctx_create(e, wickr_identity_chain_copy(W[1].dev.chain()), NULL, 4, cb, b.get()));
    a->start();
    pump(*a, *b);
    ev("early_senders");
    EXPECT(a->status() == TRANSPORT_STATUS_ACTIVE && a->rx.size() == 1 && a->rx[0] == (Bytes{ 'e', 'a', 'r', 'l', 'y' }), "early-send", "a buffer sent by the responder when it is told that it is active is emitted before the handshake answer: the initiator ends in state %d with error %d", a->status(), a->error());
}

static void ref_peer(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    Actor &A = W[r.below(W.size())];
    bool lib_initiates = r.chance(1, 2);
    ref::Peer p;
    p.me = r.chance(1, 3) ? ref::gen_chain(r, r.chance(1, 2) ? 32 : r.range(1, 127)) : ref_chain(W[r.below(W.size())].dev.chain());
    ref::Chain libc = ref_chain(A.dev.chain());
    bool lib_pins = r.chance(1, 2), ref_pins = r.chance(1, 2);
    H<wickr_identity_chain_t> pin;
    if (lib_pins) { pin = lib_chain(p.me, e, false); REQUIRE(pin, "pin", "a chain of an independent implementation is not accepted"); }
    uint32_t evo = gen_evo(r), ppe = evo ? evo : PACKET_PER_EVO_DEFAULT;
    auto a = make_ep("lib", e, A.dev.chain(), pin.get(), evo);
    auto maybe_copy = [&](unsigned odds) {
        if (!r.chance(1, odds)) return;
        auto c = own(wickr_transport_ctx_copy(a->t.get()));
        REQUIRE(c, "copy", "copying a transport failed");
        a->t = std::move(c);
        ev("copied");
    };
    maybe_copy(4);
    if (lib_initiates) {
        a->start();
        maybe_copy(4);
        REQUIRE(a->tx.size() == 1, "start", "no handshake packet");
        Bytes resp;
        uint32_t pe = r.pick<uint32_t>({ 1, 2, 7, 64, 32768 });
        bool ok = p.respond(r, a->take(), pe, resp, ref_pins ? &libc : nullptr);
        REQUIRE(ok, "seed-differs", "an independent responder refuses the seed: %s", p.err.c_str());
        ppe = pe;
        a->feed(resp);
    } else {
        Bytes s = p.start(r, !ref_pins);
        a->feed(s);
        REQUIRE(a->tx.size() == 1, "no-answer", "a seed of an independent initiator is not answered (state %d, error %d)", a->status(), a->error());
        bool ok = p.finish(a->take(), ref_pins ? &libc : nullptr);
        REQUIRE(ok, "answer-differs", "an independent initiator refuses the answer: %s", p.err.c_str());
        EXPECT(p.ppe_send == ppe && p.ppe_recv == ppe, "ppe-differs", "the answer sets key evolution to %" PRIu64 "/%" PRIu64 " packets instead of %u", p.ppe_send, p.ppe_recv, ppe);
    }
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE, "interop-not-active", "with an independent peer the transport is in state %d (error %d), %s, pinned %d/%d", a->status(), a->error(), lib_initiates ? "initiating" : "answering", lib_pins, ref_pins);
    EXPECT(a->verify.size() == (lib_pins ? 0u : 1u) && (lib_pins || a->verify[0] == ref::enc_chain(p.me)), "verify-wrong-chain", "the identity callback did not get exactly the peer's chain once");
    ev("interop_sessions");
    maybe_copy(4);
    Bytes m, got;
    uint64_t n_tx = 0;
    std::vector<Bytes> sent;
    for (int i = 0, n = (int)r.range(4, 80); i < n; i++) {
        m = gen_msg(r);
        if (r.chance(1, 2)) {
            a->send(m);
            REQUIRE(a->has_tx(), "send-emits", "sending emitted nothing");
            uint64_t seq = 0;
            Bytes w = a->take();
            bool ok = p.recv(w, got, &seq);
            REQUIRE(ok && got == m, "interop-send", "packet %" PRIu64 " is not what an independent receiver expects: %s", n_tx + 1, ok ? "content differs" : p.err.c_str());
            n_tx++;
            EXPECT(seq == n_tx, "sequence", "packet %" PRIu64 " carries sequence number %" PRIu64, n_tx, seq);
            ev("lib_to_ref");
        } else {
            a->feed(p.send(r, m));
            sent.push_back(m);
            REQUIRE(a->rx.size() == sent.size() && a->rx.back() == m, "interop-receive", "packet %zu of an independent sender was not delivered (state %d, error %d, evo %u)", sent.size(), a->status(), a->error(), ppe);
            ev("ref_to_lib");
        }
    }
    distinct(fmt("rp:%d%d%d:%u", lib_initiates, lib_pins, ref_pins, ppe));
}

// the handshake on its own: both sides end with the same two keys, and the two differ
static thread_local std::vector<wickr_identity_chain_t *> *g_ids;
static void hs_cb(const wickr_transport_handshake_t *, wickr_identity_chain_t *id, void *) { wickr_identity_chain_destroy(&id); }
static void handshake_only(Rng &r)
{
    wickr_crypto_engine_t e = mon_engine();
    Actor &A = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    bool pinA = r.chance(1, 2), pinB = r.chance(1, 2);
    uint32_t ea = (uint32_t)r.range(1, 600), eb = (uint32_t)r.range(1, 600);
    auto a = own(wickr_transport_handshake_create(e, wickr_identity_chain_copy(A.dev.chain()), pinA ? wickr_identity_chain_copy(B_.pub.get()) : NULL, hs_cb, ea, NULL));
    auto b = own(wickr_transport_handshake_create(e, wickr_identity_chain_copy(B_.dev.chain()), pinB ? wickr_identity_chain_copy(A.pub.get()) : NULL, hs_cb, eb, NULL));
    REQUIRE(a && b, "handshake-create", "creating a handshake failed");
    auto wire = [&](wickr_transport_packet_t *p) { auto s = own(wickr_transport_packet_serialize(p)); auto q = own(wickr_transport_packet_create_from_buffer(s.get())); REQUIRE(q, "packet-parse", "a handshake packet does not survive the wire"); return q; };
    auto s = own(wickr_transport_handshake_start(a.get()));
    REQUIRE(s, "start", "starting a handshake failed");
    auto resp = own(wickr_transport_handshake_process(b.get(), wire(s.get()).get()));
    if (!pinB) {
        EXPECT(!resp && wickr_transport_handshake_get_status(b.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, "pending", "handshake not waiting for the decision");
        resp = own(wickr_transport_handshake_verify_identity(b.get(), true));
    }
    REQUIRE(resp && wickr_transport_handshake_get_status(b.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, "responder", "no answer to a genuine seed");
    auto none = own(wickr_transport_handshake_process(a.get(), wire(resp.get()).get()));
    if (!pinA) { EXPECT(wickr_transport_handshake_get_status(a.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, "pending", "handshake not waiting for the decision"); none = own(wickr_transport_handshake_verify_identity(a.get(), true)); }
    EXPECT(!none, "extra-packet", "the initiator answers the answer");
    auto ra = own(wickr_transport_handshake_finalize(a.get())), rb = own(wickr_transport_handshake_finalize(b.get()));
    REQUIRE(ra && rb, "finalize", "finalizing a complete handshake failed");
    auto *al = wickr_transport_handshake_res_get_local_key(ra.get()), *ar = wickr_transport_handshake_res_get_remote_key(ra.get());
    auto *bl = wickr_transport_handshake_res_get_local_key(rb.get()), *br = wickr_transport_handshake_res_get_remote_key(rb.get());
    EXPECT(same(al, br) && same(ar, bl), "keys-disagree", "the two sides hold different keys");
    EXPECT(!same(al->cipher_key, ar->cipher_key) && !same(al->evolution_key, ar->evolution_key) && !same(al->cipher_key->key_data, al->evolution_key), "keys-not-distinct", "the two directions share keys");
    EXPECT(al->packets_per_evolution == eb && ar->packets_per_evolution == eb, "ppe", "key evolution interval is %u/%u instead of %u", al->packets_per_evolution, ar->packets_per_evolution, eb);
    EXPECT(chain_bytes(wickr_transport_handshake_get_remote_identity(a.get())) == chain_bytes(B_.dev.chain()) && chain_bytes(wickr_transport_handshake_get_remote_identity(b.get())) == chain_bytes(A.dev.chain()), "identity", "a side holds another identity than the peer's");
    EXPECT(wickr_transport_handshake_get_status(a.get()) == TRANSPORT_HANDSHAKE_STATUS_COMPLETE && wickr_transport_handshake_get_status(b.get()) == TRANSPORT_HANDSHAKE_STATUS_COMPLETE, "status", "a finalized handshake is not complete");
    static std::set<Bytes> seen;
    for (auto *k : { al, ar }) EXPECT(seen.insert(B(k->cipher_key->key_data)).second && seen.insert(B(k->evolution_key)).second, "keys-repeat", "two sessions share a key");
    ev("handshakes");
    distinct(fmt("hs:%d%d", pinA, pinB));
}

// a long conversation: more packets in one direction than fit 16 bits, over several evolutions of large intervals
static void long_session(Rng &r, bool back)
{
    wickr_crypto_engine_t e = mon_engine();
    uint32_t evo = r.pick<uint32_t>({ 32768, 32768, 32767, 20000, 1000 });
    auto a = make_ep("initiator", e, W[2].dev.chain(), NULL, evo), b = make_ep("responder", e, W[3].dev.chain(), W[2].pub.get(), evo);
    a->start();
    pump(*a, *b);
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && b->status() == TRANSPORT_STATUS_ACTIVE, "in-process-active", "two directly connected endpoints are in states %d and %d", a->status(), b->status());
    Endpoint &x = back ? *b : *a, &y = back ? *a : *b;
    x.tx.clear();
    x.tx_taken = 0;
    for (uint32_t i = 1; i <= 66100; i++) {
        Bytes m{ (uint8_t)i, (uint8_t)(i >> 8), (uint8_t)(i >> 16), 7 };
        x.send(m);
        REQUIRE(x.tx.size() == 1, "send-emits", "sending buffer %u emitted %zu packets", i, x.tx.size());
        y.feed(x.tx[0]);
        REQUIRE(y.rx.size() == 1 && y.rx[0] == m, "lost", "buffer %u of a long session was not delivered as sent (state %d, error %d, evo %u)", i, y.status(), y.error(), evo);
        y.rx.clear();
        x.tx.clear();
        x.trace.clear();
        y.trace.clear();
        evals(1);
    }
    ev("long_sessions");
    ev("delivered", 66100);
    distinct(fmt("long:%u:%d", evo, back));
}
void prop_case(uint64_t k, Rng &r)
{
    if (k % 2400 == 6 || k % 2400 == 13) return long_session(r, k % 2400 == 13);
    switch (k % 6) {
        case 0: case 1: lib_lib(r); break;
        case 2: in_process(r); break;
        case 3: case 4: ref_peer(r); break;
        default: if (k % 120 == 5) early_sender(r); handshake_only(r); break;
    }
}
}
