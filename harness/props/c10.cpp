// C10: an endpoint becomes active only with the authenticated, approved (or pinned) peer.
// A network attacker with valid identities of its own plays against real endpoints in both roles. The oracle re-verifies,
// independently, the handshake packet that made an endpoint active; every session that must not come up is then probed
// for any delivered or emitted application data.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C10";
static World W;
static wickr_crypto_engine_t E;
void prop_init() { E = mon_engine(); Rng r(g_seed * 131 + 10); W.build(r, 6, E); }
void prop_fini() {}

// the last handshake packet an endpoint was given, as an independent observer reads it
struct Seen {
    bool parsed = false, has_chain = false, chain_ok = false;
    ref::Chain chain;
    Bytes chain_bytes_, pkt;
};
static Seen look(const Bytes &p)
{
    Seen s;
    s.pkt = p;
    if (p.size() <= 153 || (p[0] >> 4) != TRANSPORT_PAYLOAD_TYPE_HANDSHAKE || (p[0] & 15) != TRANSPORT_MAC_TYPE_EC_P521 || p[1] != 1) return s;
    ref::PR h(sub(p, 10, p.size() - 153));
    Bytes b, c;
    if (!h.ok || (!h.bytes(2, b) && !h.bytes(3, b))) return s;
    bool seed = h.get(2) != nullptr;
    ref::PR q(b);
    if (!q.ok) return s;
    s.parsed = true;
    if (q.bytes(seed ? 2 : 4, c)) { s.has_chain = true; s.chain_bytes_ = c; s.chain_ok = ref::dec_chain(c, s.chain); }
    return s;
}
static bool chain_signed(const ref::Chain &c) { return c.root.type == IDENTITY_TYPE_ROOT && c.node.type == IDENTITY_TYPE_NODE && !c.node.sig.empty() && ref::ecdsa_verify(c.root.key.pub, c.node.key.pub, c.node.sig); }

struct Target {
    std::unique_ptr<Endpoint> ep;
    bool initiator = false, approved = false;
    bool pinned = false;
    ref::Chain pin;
    Bytes pin_bytes;
    std::vector<Bytes> fed;
    size_t rx_at_end = 0;
    void feed(const Bytes &b) { fed.push_back(b); ep->feed(b); }
};
static Target target(const Actor &who, bool initiator, const wickr_identity_chain_t *pin, Endpoint::Policy p = Endpoint::APPROVE, uint32_t evo = 0)
{
    Target t;
    t.ep = make_ep(initiator ? "initiator" : "responder", E, who.dev.chain(), pin, evo);
    t.initiator = initiator;
    t.ep->policy = p;
    t.approved = p == Endpoint::APPROVE;
    if (pin) { t.pinned = true; t.pin = ref_chain(pin); t.pin_bytes = chain_bytes(pin); }
    return t;
}
// must: 0 must not become active; 1 must; -1 whatever, but then the proof must be there
static void judge(Rng &r, Target &t, int must, const char *kind)
{
    Endpoint &x = *t.ep;
    bool active = std::find(x.states.begin(), x.states.end(), (int)TRANSPORT_STATUS_ACTIVE) != x.states.end();
    bool was_active = active;
    EXPECT(!(x.status() == TRANSPORT_STATUS_ACTIVE && !active), "active-unreported", "%s: active without reporting it", kind);
    if (must == 0) REQUIRE(!active, "activated", "%s: the %s became active (%s)", kind, x.name, t.pinned ? "pinned" : "not pinned");
    if (must == 1) REQUIRE(active, "baseline", "%s: the %s did not become active (state %d error %d)", kind, x.name, x.status(), x.error());
    EXPECT(x.verify.size() <= (t.pinned ? 0u : 1u), "verify-count", "%s: the identity callback was consulted %zu times (%s)", kind, x.verify.size(), t.pinned ? "pinned" : "not pinned");
    for (bool p : x.verify_priv) EXPECT(!p, "verify-private", "%s: private keys passed to the identity callback", kind);
    // whichever packet triggered the callback must have been authentic for exactly that chain
    if (!x.verify.empty()) {
        bool found = false;
        for (auto &f : t.fed) {
            Seen s = look(f);
            if (s.parsed && s.has_chain && s.chain_ok && ref::enc_chain(s.chain) == x.verify[0] && chain_signed(s.chain) && ref::verify_transport(f, s.chain.node.key.pub)) found = true;
        }
        EXPECT(found, "verify-unproven", "%s: the identity callback of the %s was asked about a chain whose possession no packet proved", kind, x.name);
        ev("verify_calls");
    }
    if (active) {
        REQUIRE(!t.fed.empty(), "activated-alone", "%s: active without any packet", kind);
        bool proof = false;
        for (auto &f : t.fed) {
            Seen s = look(f);
            if (!s.parsed) continue;
            if (t.pinned) { if (ref::verify_transport(f, t.pin.node.key.pub) && chain_signed(t.pin)) proof = true; }
            else if (t.approved && x.verify.size() == 1 && s.has_chain && s.chain_ok && ref::enc_chain(s.chain) == x.verify[0] && chain_signed(s.chain) && ref::verify_transport(f, s.chain.node.key.pub)) proof = true;
        }
        REQUIRE(proof, "activated-unproven", "%s: the %s became active although no packet it was given proves possession of the %s chain", kind, x.name, t.pinned ? "pinned" : "approved");
        ev("activated");
    } else {
        if (t.fed.size() || must == 0) EXPECT(x.status() == TRANSPORT_STATUS_ERROR && x.error() != TRANSPORT_ERROR_NONE, "no-error", "%s: the %s is in state %d with error %d instead of having failed", kind, x.name, x.status(), x.error());
        // nothing may come out afterwards
        size_t tx = x.tx.size(), st = x.states.size();
        x.send(r.bytes(20));
        for (int i = 0; i < 3; i++) {
            switch (r.below(4)) {
                case 0: x.feed(cat({ ref::data_meta(1), ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(20)) })); break;
                case 1: if (!t.fed.empty()) x.feed(t.fed[r.below(t.fed.size())]); break;
                case 2: x.decide(true); break;
                default: x.start(); break;
            }
        }
        EXPECT(x.tx.size() == tx, "emitted-after-failure", "%s: the failed %s emitted %zu more packets", kind, x.name, x.tx.size() - tx);
        EXPECT(x.rx.empty(), "delivered", "%s: the failed %s delivered data", kind, x.name);
        EXPECT(x.status() == TRANSPORT_STATUS_ERROR, "revived", "%s: the failed %s came to state %d", kind, x.name, x.status());
        EXPECT(x.states.size() == st + (st == 0 || x.states[st - 1] != TRANSPORT_STATUS_ERROR ? x.states.size() - st : 0), "states-after-failure", "%s: more states reported after the failure", kind);
        ev("refused");
        distinct(fmt("%s:%d:%d", kind, t.initiator, t.pinned));
        if (r.chance(1, 50)) sample(fmt("%s -> the %s failed with error %d, %zu callback(s), nothing delivered", kind, x.name, x.error(), x.verify.size()));
    }
    (void)was_active;
}
// application data of a session that is not supposed to exist must not get through either
static void probe_active(Rng &r, Target &t, const std::vector<Bytes> &foreign, const char *kind)
{
    Endpoint &x = *t.ep;
    if (x.status() != TRANSPORT_STATUS_ACTIVE) return;
    size_t n = x.rx.size();
    for (auto &f : foreign) x.feed(f);
    EXPECT(x.rx.size() == n, "foreign-delivered", "%s: data of another session was delivered", kind);
    ev("foreign_probes");
}

// ------------------------------------------------------------------ forging seeds against a responder
static ref::Chain attacker_chain(Rng &r) { return ref::gen_chain(r, r.pick<size_t>({ 1, 32, 32, 127 })); }

static void bad_seed(Rng &r)
{
    Actor &A = W[r.below(W.size())];
    size_t bi = r.below(W.size());
    Actor &T = W[bi];
    ref::Chain a = ref_chain(A.dev.chain());
    ref::Chain m = attacker_chain(r), n = attacker_chain(r), c = m;
    ref::Peer P;
    P.me = m;
    const char *kind;
    int must = 0;
    const wickr_identity_chain_t *pin = nullptr;
    bool announce = true;
    switch (r.below(19)) {
        case 0: kind = "seed announcing somebody else's chain"; c = a; c.node.key.der.clear(); break;
        case 1: kind = "seed with an unsigned device"; c.node.sig.clear(); break;
        case 2: kind = "seed with a device signed by another root"; c.node.sig = ref::ecdsa_sign(n.root.key.der, m.node.key.pub); break;
        case 3: kind = "seed with a self-signed device"; c.node.sig = ref::ecdsa_sign(m.node.key.der, m.node.key.pub); break;
        case 4: kind = "seed under somebody else's root"; c.root = a.root; break;
        case 5: kind = "seed under somebody else's root with their device's signature"; c.root = a.root; c.node.sig = a.node.sig; break;
        case 6: kind = "seed with a signature over the identifier"; c.node.sig = ref::ecdsa_sign(m.root.key.der, m.node.id); break;
        case 7: kind = "seed with root and device swapped"; std::swap(c.root, c.node); c.root.type = IDENTITY_TYPE_ROOT; c.node.type = IDENTITY_TYPE_NODE; c.node.sig = m.node.sig; break;
        case 8: kind = "seed signed by the root key"; P.me.node.key = m.root.key; break;
        case 9: kind = "seed signed by an unrelated key"; P.me.node.key = n.node.key; break;
        case 10: kind = "own seed to an endpoint that pinned somebody else"; pin = A.dev.chain(); break;
        case 11: kind = "seed announcing the pinned chain"; pin = A.dev.chain(); c = a; break;
        case 12: {  // a sibling: another genuine device of the pinned account
            kind = "seed from another device under the pinned root";
            pin = A.dev.chain();
            c.root = a.root;
            c.node.sig = ref::ecdsa_sign(a.root.key.der, m.node.key.pub);
            break;
        }
        case 13: {  // same identifiers, other keys
            kind = "seed imitating the pinned identifiers";
            pin = A.dev.chain();
            c.root.id = a.root.id; c.node.id = a.node.id;
            break;
        }
        case 14: {
            kind = "seed from the pinned peer announcing another chain";
            pin = A.dev.chain();
            P.me = a;
            must = -1;
            break;
        }
        case 15: kind = "seed without a chain"; announce = false; break;
        case 16: kind = "seed of the attacker, approved"; must = 1; break;
        case 17: kind = "seed of the pinned peer"; pin = A.dev.chain(); P.me = c = a; must = 1; break;
        default: {   // a pinned chain that does not hold together
            kind = "pinned chain whose root did not sign the device";
            ref::Chain bad = c;
            bad.node.sig = ref::ecdsa_sign(n.root.key.der, m.node.key.pub);
            auto lc = lib_chain(bad, E, false);
            REQUIRE(lc, "chain", "could not make a chain");
            Target t = target(T, false, lc.get());
            t.feed(P.start(r, r.chance(1, 2)));
            judge(r, t, 0, kind);
            return;
        }
    }
    Endpoint::Policy pol = Endpoint::APPROVE;
    Target t = target(T, false, pin, pol);
    Bytes p;
    if (announce) p = P.start(r, r.chance(1, 2), &c);
    else {
        P.initiator = true;
        P.eph = ref::ec_gen(r);
        ref::PW s, h;
        s.s(3, P.eph.pub).u(4, 1);
        h.s(2, s.b);
        p = ref::sign_transport(cat({ ref::hs_meta(), h.b }), P.me.node.key.der);
    }
    t.feed(p);
    ev("forged_seeds");
    judge(r, t, must, kind);
    if (must == 0) EXPECT(t.ep->tx.empty() || t.ep->tx.size() == 0, "answered", "%s: the responder answered", kind);
}
// ------------------------------------------------------------------ decisions of the application
static void decisions(Rng &r)
{
    Actor &T = W[r.below(W.size())];
    bool initiator = r.chance(1, 2);
    ref::Peer P;
    P.me = attacker_chain(r);
    const char *kind;
    Target t = target(T, initiator, nullptr, Endpoint::DEFER);
    Bytes hs, dummy;
    if (initiator) {
        t.ep->start();
        REQUIRE(t.ep->has_tx(), "baseline", "starting emitted nothing");
        REQUIRE(P.respond(r, t.ep->take(), 5, hs), "baseline", "own reference could not answer: %s", P.err.c_str());
    } else hs = P.start(r, r.chance(1, 2));
    int must = 0;
    size_t tx0 = t.ep->tx.size();
    switch (r.below(10)) {
        case 0: kind = "refused at once"; t.ep->policy = Endpoint::REFUSE; t.feed(hs); break;
        case 1: kind = "refused later"; t.feed(hs); t.ep->decide(false); break;
        case 2: kind = "refused, then approved"; t.feed(hs); t.ep->decide(false); t.ep->decide(true); break;
        case 3: kind = "second handshake packet while undecided, then approved"; t.feed(hs); t.feed(hs); t.approved = true; t.ep->decide(true); break;
        case 4: {
            kind = "another peer's handshake packet while undecided, then approved";
            t.feed(hs);
            ref::Peer Q;
            Q.me = attacker_chain(r);
            Bytes q;
            if (initiator) Q.respond(r, t.ep->tx[0], 5, q); else q = Q.start(r, true);
            t.feed(q);
            t.approved = true;
            t.ep->decide(true);
            break;
        }
        case 5: kind = "data while undecided, then approved"; t.feed(hs); t.feed(cat({ ref::data_meta(1), ref::gcm_box(r.bytes(32), r.bytes(12), r.bytes(20)) })); t.approved = true; t.ep->decide(true); break;
        case 6: kind = "sending while undecided, then approved"; t.feed(hs); t.ep->send(r.bytes(10)); t.approved = true; t.ep->decide(true); break;
        case 7: kind = "starting while undecided, then approved"; t.feed(hs); t.ep->start(); t.approved = true; t.ep->decide(true); break;
        case 8: {
            kind = "approved before there was a peer";
            // the decision callback as obtained from another session
            Target o = target(T, false, nullptr, Endpoint::DEFER);
            ref::Peer Q;
            Q.me = attacker_chain(r);
            o.feed(Q.start(r, true));
            REQUIRE(o.ep->pending, "baseline", "the callback was not consulted");
            t.ep->policy = Endpoint::REFUSE;
            o.ep->pending(t.ep->t.get(), true);
            t.feed(hs);
            break;
        }
        default: {
            kind = "approved later";
            t.feed(hs);
            EXPECT(t.ep->status() != TRANSPORT_STATUS_ACTIVE && t.ep->status() != TRANSPORT_STATUS_ERROR && t.ep->tx.size() == tx0, "early", "the %s went on before the decision", t.ep->name);
            t.approved = true;
            t.ep->decide(true);
            must = 1;
            break;
        }
    }
    ev("decisions");
    judge(r, t, must, kind);
}
// ------------------------------------------------------------------ forging answers to an initiator
static void bad_answer(Rng &r)
{
    Actor &T = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    ref::Chain b = ref_chain(B_.dev.chain());
    ref::Peer P;
    P.me = attacker_chain(r);
    ref::Chain n = attacker_chain(r), c = P.me;
    const wickr_identity_chain_t *pin = nullptr;
    const char *kind;
    int must = 0;
    bool force_chain = false;
    switch (r.below(14)) {
        case 0: kind = "answer announcing somebody else's chain"; c = b; break;
        case 1: kind = "answer with an unsigned device"; c.node.sig.clear(); break;
        case 2: kind = "answer with a device signed by another root"; c.node.sig = ref::ecdsa_sign(n.root.key.der, P.me.node.key.pub); break;
        case 3: kind = "answer under somebody else's root"; c.root = b.root; break;
        case 4: kind = "answer signed by the root key"; P.me.node.key = P.me.root.key; break;
        case 5: kind = "answer signed by an unrelated key"; P.me.node.key = n.node.key; break;
        case 6: kind = "own answer to an endpoint that pinned somebody else"; pin = B_.dev.chain(); break;
        case 7: kind = "own answer with chain to an endpoint that pinned somebody else"; pin = B_.dev.chain(); force_chain = true; break;
        case 8: kind = "answer announcing the pinned chain"; pin = B_.dev.chain(); c = b; force_chain = true; break;
        case 9: kind = "answer announcing the pinned chain implicitly"; pin = B_.dev.chain(); c = b; break;
        case 10: kind = "answer from another device under the pinned root"; pin = B_.dev.chain(); c.root = b.root; c.node.sig = ref::ecdsa_sign(b.root.key.der, c.node.key.pub); force_chain = r.chance(1, 2); break;
        case 11: kind = "answer without the chain that was asked for"; break;
        case 12: kind = "answer of the attacker, approved"; must = 1; break;
        default: kind = "answer of the pinned peer"; pin = B_.dev.chain(); P.me = c = b; must = 1; break;
    }
    Target t = target(T, true, pin);
    t.ep->start();
    REQUIRE(t.ep->has_tx(), "baseline", "starting emitted nothing");
    Bytes seed = t.ep->take(), out;
    ref::PR sp(sub(seed, 10, seed.size() - 153));
    if (kind[0] == 'a' && !strcmp(kind, "answer without the chain that was asked for")) {
        // as if the identity had not been required
        REQUIRE(P.respond(r, seed, 5, out, nullptr, &c), "baseline", "reference could not answer: %s", P.err.c_str());
        ref::PR h(sub(out, 10, out.size() - 153));
        Bytes rb, ep, data;
        h.bytes(3, rb);
        ref::PR q(rb);
        q.bytes(2, ep); q.bytes(3, data);
        ref::PW rs, hh;
        rs.s(2, ep).s(3, data);
        hh.s(3, rs.b);
        out = ref::sign_transport(cat({ ref::hs_meta(), hh.b }), P.me.node.key.der);
    } else REQUIRE(P.respond(r, seed, 5, out, nullptr, &c), "baseline", "reference could not answer: %s", P.err.c_str());
    if (force_chain) {
        ref::PR h(sub(out, 10, out.size() - 153));
        Bytes rb, ep, data;
        h.bytes(3, rb);
        ref::PR q(rb);
        q.bytes(2, ep); q.bytes(3, data);
        ref::PW rs, hh;
        rs.s(2, ep).s(3, data).s(4, ref::enc_chain(c));
        hh.s(3, rs.b);
        out = ref::sign_transport(cat({ ref::hs_meta(), hh.b }), P.me.node.key.der);
    }
    t.feed(out);
    ev("forged_answers");
    judge(r, t, must, kind);
}
// ------------------------------------------------------------------ mixing sessions and identities
static Bytes resign(const Bytes &pkt, const ref::Chain *chain, const ref::Chain &signer)
{
    Seen s = look(pkt);
    if (!s.parsed) throw CaseAbort();
    ref::PR h(sub(pkt, 10, pkt.size() - 153));
    Bytes b;
    bool seed = h.bytes(2, b);
    if (!seed) h.bytes(3, b);
    ref::PR q(b);
    ref::PW o, hh;
    for (auto &f : q.f) {
        if (f.num == (seed ? 2 : 4)) { if (chain) o.s(f.num, ref::enc_chain(*chain)); continue; }
        if (f.wire == 2) o.s(f.num, f.s); else o.u(f.num, f.u);
    }
    hh.s(seed ? 2 : 3, o.b);
    return ref::sign_transport(cat({ ref::hs_meta(), hh.b }), signer.node.key.der);
}
static void mixing(Rng &r)
{
    size_t ia = r.below(W.size()), ib = r.below(W.size()), ic = r.below(W.size());
    Actor &A = W[ia], &B_ = W[ib], &C = W[ic];
    bool pa = r.chance(1, 2), pb = r.chance(1, 2);
    ref::Chain M = attacker_chain(r);
    const char *kind;
    switch (r.below(9)) {
        case 0: {
            kind = "answer of another session of the same two peers";
            Target a1 = target(A, true, pa ? B_.pub.get() : nullptr), a2 = target(A, true, pa ? B_.pub.get() : nullptr);
            Target b1 = target(B_, false, pb ? A.pub.get() : nullptr), b2 = target(B_, false, pb ? A.pub.get() : nullptr);
            a1.ep->start(); a2.ep->start();
            b1.feed(a1.ep->take()); b2.feed(a2.ep->take());
            REQUIRE(b1.ep->has_tx() && b2.ep->has_tx(), "baseline", "no answer");
            Bytes r1 = b1.ep->take(), r2 = b2.ep->take();
            a1.feed(r2); a2.feed(r1);
            judge(r, a1, 0, kind);
            judge(r, a2, 0, kind);
            break;
        }
        case 1: {
            kind = "own seed reflected";
            Target a = target(A, true, r.chance(1, 2) ? A.pub.get() : nullptr);
            a.ep->start();
            a.feed(a.ep->take());
            judge(r, a, 0, kind);
            break;
        }
        case 2: {
            kind = "two initiators exchanging seeds";
            Target a = target(A, true, pa ? B_.pub.get() : nullptr), b = target(B_, true, pb ? A.pub.get() : nullptr);
            a.ep->start(); b.ep->start();
            Bytes sa = a.ep->take(), sb = b.ep->take();
            a.feed(sb); b.feed(sa);
            judge(r, a, 0, kind);
            judge(r, b, 0, kind);
            break;
        }
        case 3: {
            kind = "seed taken over by another identity, answer passed on";
            Target a = target(A, true, pa ? B_.pub.get() : nullptr), b = target(B_, false, nullptr);
            a.ep->start();
            Bytes s = a.ep->take();
            b.feed(resign(s, &M, M));
            judge(r, b, 1, "seed taken over: answering side");
            REQUIRE(b.ep->has_tx(), "baseline", "no answer");
            Bytes ans = b.ep->take();
            if (pa) { Seen x = look(ans); if (x.has_chain) {} }
            a.feed(ans);
            judge(r, a, 0, kind);
            break;
        }
        case 4: {
            kind = "answer taken over by another identity";
            Target a = target(A, true, nullptr), b = target(B_, false, pb ? A.pub.get() : nullptr);
            a.ep->start();
            b.feed(a.ep->take());
            REQUIRE(b.ep->has_tx(), "baseline", "no answer");
            a.feed(resign(b.ep->take(), &M, M));
            judge(r, a, 0, kind);
            break;
        }
        case 5: {
            kind = "both packets taken over by another identity";
            Target a = target(A, true, nullptr), b = target(B_, false, nullptr);
            a.ep->start();
            b.feed(resign(a.ep->take(), &M, M));
            REQUIRE(b.ep->has_tx(), "baseline", "no answer");
            a.feed(resign(b.ep->take(), &M, M));
            judge(r, a, 0, kind);
            break;
        }
        case 6: {
            kind = "answer to a third party's seed";
            Target a = target(A, true, pa ? B_.pub.get() : nullptr), b = target(B_, false, nullptr), c = target(C, true, pa ? B_.pub.get() : nullptr);
            a.ep->start(); c.ep->start();
            b.feed(c.ep->take());
            REQUIRE(b.ep->has_tx(), "baseline", "no answer");
            a.feed(b.ep->take());
            judge(r, a, 0, kind);
            break;
        }
        case 7: {
            // a captured seed may make another responder answer, but nothing of the first session is usable there
            kind = "replayed seed and conversation";
            Target a = target(A, true, pa ? B_.pub.get() : nullptr), b = target(B_, false, pb ? A.pub.get() : nullptr), c = target(r.chance(1, 2) ? B_ : C, false, pb ? A.pub.get() : nullptr);
            a.ep->start();
            Bytes s = a.ep->take();
            b.feed(s); c.feed(s);
            REQUIRE(b.ep->has_tx(), "baseline", "no answer");
            a.feed(b.ep->take());
            judge(r, a, 1, "conversation");
            std::vector<Bytes> from_a, from_b;
            for (int i = 0; i < 3; i++) { a.ep->send(r.bytes(30)); from_a.push_back(a.ep->take()); b.ep->send(r.bytes(30)); from_b.push_back(b.ep->take()); }
            judge(r, c, -1, kind);
            probe_active(r, c, { r.pick(r.chance(1, 2) ? from_a : from_b) }, kind);
            // a's own packets reflected to it
            probe_active(r, a, { r.pick(from_a) }, "own data reflected");
            probe_active(r, b, { r.pick(from_b) }, "own data reflected");
            break;
        }
        default: {
            kind = "answer with an altered ephemeral key, signed by the approved peer";
            // the approved peer itself answers with inconsistent material
            ref::Peer P;
            P.me = M;
            Target a = target(A, true, nullptr);
            a.ep->start();
            Bytes out;
            REQUIRE(P.respond(r, a.ep->take(), 5, out), "baseline", "reference could not answer");
            ref::PR h(sub(out, 10, out.size() - 153));
            Bytes rb, data;
            h.bytes(3, rb);
            ref::PR q(rb);
            q.bytes(3, data);
            ref::PW rs, hh;
            rs.s(2, ref::ec_gen(r).pub).s(3, data).s(4, ref::enc_chain(M));
            hh.s(3, rs.b);
            a.feed(ref::sign_transport(cat({ ref::hs_meta(), hh.b }), M.node.key.der));
            judge(r, a, 0, kind);
            break;
        }
    }
    ev("mixed_sessions");
}
// ------------------------------------------------------------------ altered genuine packets
static void altered(Rng &r)
{
    Actor &A = W[r.below(W.size())], &B_ = W[r.below(W.size())];
    bool pin = r.chance(1, 2);
    std::string what;
    if (r.chance(1, 2)) {
        ref::Peer P;
        P.me = ref_chain(A.dev.chain());
        Bytes s = P.start(r, r.chance(1, 2));
        for (int i = 0; i < 6; i++) {
            Target b = target(B_, false, pin ? A.pub.get() : nullptr);
            Bytes m = s;
            if (r.chance(2, 3)) m[r.chance(1, 3) ? r.below(12) : r.below(m.size() - 143)] ^= (uint8_t)(1 << r.below(8)), what = "bit"; else m = mutate(r, s, &what);
            bool content_same = m.size() == s.size() && std::equal(m.begin(), m.end() - 143, s.begin());
            b.feed(m);
            judge(r, b, content_same ? -1 : 0, "altered seed");
            ev("altered_packets");
        }
    } else {
        ref::Peer P;
        P.me = ref_chain(B_.dev.chain());
        for (int i = 0; i < 4; i++) {
            Target a = target(A, true, pin ? B_.pub.get() : nullptr);
            a.ep->start();
            Bytes s;
            REQUIRE(P.respond(r, a.ep->take(), 7, s), "baseline", "reference could not answer: %s", P.err.c_str());
            Bytes m = s;
            if (r.chance(2, 3)) m[r.chance(1, 3) ? r.below(12) : r.below(m.size() - 143)] ^= (uint8_t)(1 << r.below(8)), what = "bit"; else m = mutate(r, s, &what);
            bool content_same = m.size() == s.size() && std::equal(m.begin(), m.end() - 143, s.begin());
            a.feed(m);
            judge(r, a, content_same ? -1 : 0, "altered answer");
            ev("altered_packets");
        }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    switch (k % 6) {
        case 0: case 1: bad_seed(r); break;
        case 2: decisions(r); break;
        case 3: bad_answer(r); break;
        case 4: mixing(r); break;
        default: altered(r); break;
    }
}
} // namespace v
