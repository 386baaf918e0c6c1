// C34: handshake objects follow their state machine: keys only from a complete, accepted exchange, once, and never after a failure.
#include "scen.hpp"
namespace v {
const char *PROP_ID = "C34";
static World W;
static wickr_crypto_engine_t E;
void prop_init()
{
    E = plain_engine();
    Rng r(3401);
    W.e = E;
    for (int i = 0; i < 4; i++) W.add(r, i, nullptr);
    W.add(r, 3, &W.a[3]);       // a second device of the last account
}
void prop_fini() {}
enum { UNK = TRANSPORT_HANDSHAKE_STATUS_UNKNOWN, PROG = TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS, VERIF = TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION,
       FINAL = TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, DONE = TRANSPORT_HANDSHAKE_STATUS_COMPLETE, FAIL = TRANSPORT_HANDSHAKE_STATUS_FAILED };
static const char *name(int s) { return s == UNK ? "new" : s == PROG ? "in progress" : s == VERIF ? "undecided" : s == FINAL ? "ready" : s == DONE ? "complete" : "failed"; }
struct Pk {
    H<wickr_transport_packet_t> p;
    int author; bool forged;        // whose device signed it; forged: under a chain whose root never vouched for the device
    bool seed; int sid, rid;        // which seed it is or answers, which answer it is
    bool good; uint32_t evo;
    std::string what;
    bool own_words = false;         // signed by a device that did not write it
};
struct Hs {
    H<wickr_transport_handshake_t> h;
    int who; bool forged; int pin; uint32_t evo;
    bool init; int st; int sid, rid; int peer; uint32_t sevo;
    void *user; std::string hist;
};
struct Call { int n; const wickr_transport_handshake_t *h; void *user; Bytes chain; int decide; H<wickr_transport_packet_t> volley; };
static thread_local Call C;
static void on_identity(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user)
{
    C.n++;
    C.h = h;
    C.user = user;
    C.chain = chain_bytes(id);
    wickr_identity_chain_destroy(&id);
    if (C.decide >= 0) C.volley = own(wickr_transport_handshake_verify_identity(h, C.decide != 0));
}
static thread_local std::map<Bytes, int> ids;
static int id_of(const wickr_transport_packet_t *p) { auto s = own(wickr_transport_packet_serialize(p)); REQUIRE(s, "not-serialized", "a handshake packet can not be serialized"); return ids.emplace(B(s.get()), (int)ids.size()).first->second; }
static Bytes key_bytes(const wickr_stream_key_t *k) { return cat({ B(k->cipher_key->key_data), B(k->evolution_key) }); }
void prop_case(uint64_t k, Rng &r)
{
    ids.clear();
    std::vector<Hs> hs;
    std::vector<Pk> pk;
    std::map<std::pair<int, int>, std::pair<Bytes, Bytes>> keys;    // session -> initiator's two keys
    std::map<Bytes, std::pair<int, int>> owner;                     // key -> session
    int users[64], nuser = 0;
    int A = (int)r.below(W.a.size()), Z = (int)r.below(W.a.size());
    std::set<std::string> edges;
    auto create = [&](bool bias) {
        Hs x;
        x.who = bias ? (hs.size() & 1 ? Z : A) : (int)r.below(W.a.size());
        x.forged = r.chance(1, 14);
        int other = bias ? (hs.size() & 1 ? A : Z) : (int)r.below(W.a.size());
        x.pin = r.chance(1, 2) ? other : -1;
        x.evo = (uint32_t)r.range(1, 400);
        x.init = false;
        x.st = UNK;
        x.sid = x.rid = x.peer = -1;
        x.sevo = 0;
        x.user = &users[nuser++];
        wickr_identity_chain_t *me;
        if (x.forged) {
            int other_root = (x.who + 1) % 3;
            if (W.a[other_root].account == W.a[x.who].account) other_root = (x.who + 2) % 3;
            me = wickr_identity_chain_create(wickr_identity_copy(W.a[other_root].pub->root), wickr_identity_copy(W.a[x.who].dev.chain()->node));
        } else me = wickr_identity_chain_copy(W.a[x.who].dev.chain());
        x.h = own(wickr_transport_handshake_create(E, me, x.pin >= 0 ? wickr_identity_chain_copy(W.a[x.pin].pub.get()) : NULL, on_identity, x.evo, x.user));
        REQUIRE(x.h, "not-made", "a handshake can not be created");
        x.hist = fmt("device %d%s, %s", x.who, x.forged ? " under another account's root" : "", x.pin >= 0 ? fmt("pinned to %d", x.pin).c_str() : "not pinned");
        hs.push_back(std::move(x));
    };
    auto check = [&](Hs &x, int want, const std::string &op) {
        int got = wickr_transport_handshake_get_status(x.h.get());
        edges.insert(fmt("%s-%s>%s", name(x.st), op.substr(0, op.find(':')).c_str(), name(want)));
        x.hist += "; " + op;
        EXPECT(got == want, "state:" + op.substr(0, op.find(':')), "a handshake (%s) is %s instead of %s", x.hist.c_str(), name(got), name(want));
        x.st = want;
        if (got != want) throw CaseAbort();
        ev("transitions");
        if (want == FAIL) ev("failed_states");
    };
    auto volley = [&](Hs &x, H<wickr_transport_packet_t> p) {
        REQUIRE(p, "no-answer", "a responder (%s) produced no answer", x.hist.c_str());
        x.rid = id_of(p.get());
        Pk q;
        q.author = x.who; q.forged = x.forged; q.seed = false; q.sid = x.sid; q.rid = x.rid; q.good = true; q.evo = x.evo;
        q.what = fmt("answer %d to seed %d from %d%s", q.rid, q.sid, q.author, q.forged ? " (forged chain)" : "");
        q.p = std::move(p);
        pk.push_back(std::move(q));
        x.sevo = x.evo;
        ev("answers");
    };
    auto start = [&](Hs &x) {
        auto p = own(wickr_transport_handshake_start(x.h.get()));
        EXPECT(!p == (x.st != UNK), "start-result", "starting a handshake (%s) that is %s gave %s", x.hist.c_str(), name(x.st), p ? "a packet" : "no packet");
        if (x.st == UNK && p) {
            x.init = true;
            x.sid = id_of(p.get());
            Pk q;
            q.author = x.who; q.forged = x.forged; q.seed = true; q.sid = x.sid; q.rid = -1; q.good = true; q.evo = 0;
            q.what = fmt("seed %d from %d%s", q.sid, q.author, q.forged ? " (forged chain)" : "");
            q.p = std::move(p);
            pk.push_back(std::move(q));
            check(x, PROG, "start");
        } else check(x, FAIL, "start");
    };
    auto variant = [&](const Pk &o) -> bool {
        Pk q;
        q.author = o.author; q.forged = o.forged; q.seed = o.seed; q.sid = o.sid; q.rid = o.rid; q.evo = o.evo; q.good = o.good; q.own_words = o.own_words;
        if (r.chance(1, 3)) {                // genuine, by way of the wire
            auto s = own(wickr_transport_packet_serialize(o.p.get()));
            q.p = own(wickr_transport_packet_create_from_buffer(s.get()));
            q.what = o.what;
            REQUIRE(q.p || !o.good, "packet-parse", "a handshake packet does not survive the wire");
        } else if (!o.good) return false;
        else if (r.chance(1, 3)) {           // another protocol version, properly signed by its author
            auto p = own(wickr_transport_packet_create(o.p->meta, wickr_buffer_copy(o.p->body)));
            if (!p) return false;
            if (p->meta.body_type != TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) return false;
            uint8_t ver = r.pick<uint8_t>({ 0, 2, 3, 129, 255 });
            p->meta.body_meta.handshake.protocol_version = ver;
            p->meta.mac_type = TRANSPORT_MAC_TYPE_EC_P521;
            if (!wickr_transport_packet_sign(p.get(), &E, W.a[o.author].dev.chain())) return false;
            q.p = std::move(p);
            q.good = false;
            q.what = o.what + fmt(" (version %d)", ver);
            ev("wrong_version");
        } else if (r.chance(1, 2)) {         // signed by another device
            int m = (int)r.below(W.a.size());
            if (m == o.author) return false;
            auto p = own(wickr_transport_packet_create(o.p->meta, wickr_buffer_copy(o.p->body)));
            if (!p || !wickr_transport_packet_sign(p.get(), &E, W.a[m].dev.chain())) return false;
            q.p = std::move(p);
            q.good = false;
            q.what = o.what + fmt(" (signed by %d)", m);
            q.author = m;                    // an endpoint that pinned somebody never looks at the chain in the packet
            q.own_words = true;
            ev("resigned");
        } else {                             // damaged
            auto s = own(wickr_transport_packet_serialize(o.p.get()));
            Bytes b = B(s.get());
            size_t lim = b.size() > 160 ? b.size() - 150 : b.size();
            size_t at = r.chance(1, 3) ? r.below(std::min<size_t>(lim, 14)) : r.below(lim);
            b[at] ^= (uint8_t)(1u << r.below(8));
            q.p = own(wickr_transport_packet_create_from_buffer(View(b)));
            if (!q.p) return false;
            q.good = false;
            q.what = o.what + fmt(" (bit flipped in byte %zu)", at);
            ev("damaged");
        }
        pk.push_back(std::move(q));
        return true;
    };
    auto process = [&](Hs &x, int i) {
        Pk *q = i < 0 ? nullptr : &pk[i];
        bool ok = false;
        if (q) {
            size_t v = q->what.find_last_of('(');
            std::string way = q->good ? (q->forged ? "forged chain" : x.st == PROG && !q->seed && q->sid != x.sid ? "another session" : "genuine") : q->what.substr(v, 5);
            edges.insert(fmt("%s-%s-%s-%s", name(x.st), q->seed ? "seed" : "answer", way.c_str(), x.pin < 0 ? "open" : x.pin == q->author ? "pinned" : "pinned to another"));
            if (x.st == UNK) ok = q->good && q->seed && !q->forged && (x.pin < 0 || x.pin == q->author);
            else if (x.st == PROG) ok = q->good && !q->seed && !q->forged && q->sid == x.sid && (x.pin < 0 || x.pin == q->author);
        }
        // The pinned device itself signed something it did not write: only a peer acting against itself can do that.
        if (q && (q->own_words || q->forged) && x.pin == q->author) return;
        C.n = 0;
        C.decide = r.chance(1, 4) ? (int)r.below(3) != 0 : -1;
        C.volley.reset();
        auto p = own(wickr_transport_handshake_process(x.h.get(), q ? q->p.get() : NULL));
        std::string op = "process:" + (q ? q->what : std::string("nothing"));
        if (!ok) {
            EXPECT(C.n == 0, "callback", "the identity callback of a handshake (%s) was called for %s", x.hist.c_str(), op.c_str());
            EXPECT(!p && !C.volley, "answered", "a handshake (%s) that is %s answers %s", x.hist.c_str(), name(x.st), op.c_str());
            check(x, FAIL, op);
            ev("refused");
            return;
        }
        ev("accepted");
        bool was_init = x.init;
        x.peer = q->author;
        x.sid = q->sid;
        if (was_init) { x.rid = q->rid; x.sevo = q->evo; }
        Bytes theirs = chain_bytes(W.a[x.peer].pub.get());
        if (x.pin < 0) {
            EXPECT(C.n == 1 && C.h == x.h.get() && C.user == x.user && C.chain == theirs, "callback", "the identity callback of a handshake (%s) was called %d times for %s, or with another identity", x.hist.c_str(), C.n, op.c_str());
            EXPECT(!p, "answered-early", "a handshake (%s) answers before its decision", x.hist.c_str());
            if (C.decide < 0) { check(x, VERIF, op); return; }
            check(x, C.decide ? FINAL : FAIL, op + (C.decide ? ", accepted" : ", declined") + " in the callback");
            if (!C.decide) { EXPECT(!C.volley, "answered", "a declined handshake answers"); return; }
            if (was_init) EXPECT(!C.volley, "answered", "an initiator answers"); else volley(x, std::move(C.volley));
        } else {
            EXPECT(C.n == 0, "callback", "the identity callback of a handshake (%s) was called", x.hist.c_str());
            check(x, FINAL, op);
            if (was_init) EXPECT(!p, "answered", "an initiator answers"); else volley(x, std::move(p));
        }
        EXPECT(chain_bytes(wickr_transport_handshake_get_remote_identity(x.h.get())) == theirs, "identity", "a handshake (%s) holds another identity than its peer's", x.hist.c_str());
    };
    auto decide = [&](Hs &x, bool yes) {
        auto p = own(wickr_transport_handshake_verify_identity(x.h.get(), yes));
        bool ok = yes && x.st == VERIF;
        std::string op = yes ? "accept" : "decline";
        if (!ok) EXPECT(!p, "answered", "a handshake (%s) that is %s gives a packet when told to %s", x.hist.c_str(), name(x.st), op.c_str());
        check(x, ok ? FINAL : FAIL, op);
        if (ok && !x.init) volley(x, std::move(p));
        else if (ok) EXPECT(!p, "answered", "an initiator answers");
    };
    auto finalize = [&](Hs &x) {
        auto f = own(wickr_transport_handshake_finalize(x.h.get()));
        bool ok = x.st == FINAL;
        EXPECT(!f == !ok, "finalize", "finalizing a handshake (%s) that is %s gave %s", x.hist.c_str(), name(x.st), f ? "keys" : "nothing");
        check(x, ok ? DONE : FAIL, "finalize");
        if (!f || !ok) return;
        if (r.chance(1, 2)) f = own(wickr_transport_handshake_res_copy(f.get()));
        auto *l = wickr_transport_handshake_res_get_local_key(f.get()), *m = wickr_transport_handshake_res_get_remote_key(f.get());
        Bytes a = key_bytes(x.init ? l : m), b = key_bytes(x.init ? m : l);
        auto s = std::make_pair(x.sid, x.rid);
        auto it = keys.find(s);
        if (it != keys.end()) {
            EXPECT(it->second.first == a && it->second.second == b, "keys-disagree", "two sides of one session hold different keys (%s)", x.hist.c_str());
            ev("agreed");
        } else {
            EXPECT(a != b && owner.emplace(a, s).second && owner.emplace(b, s).second, "keys-repeat", "two sessions share a key (%s)", x.hist.c_str());
            keys[s] = { a, b };
        }
        EXPECT(l->packets_per_evolution == x.sevo && m->packets_per_evolution == x.sevo, "interval", "the keys of a handshake (%s) evolve every %u/%u packets instead of %u", x.hist.c_str(), l->packets_per_evolution, m->packets_per_evolution, x.sevo);
        ev("keys");
    };
    create(true);
    create(true);
    int n = (int)r.range(8, 36), calm = (int)r.range(2, 10);
    for (int i = 0; i < n; i++) {
        if (hs.size() < 6 && nuser < 60 && r.chance(1, 10)) { create(r.chance(2, 3)); continue; }
        size_t xi = r.below(hs.size());
        if (hs.size() < 8 && r.chance(1, 7)) {
            Hs &o = hs[xi];
            Hs c;
            c.h = own(wickr_transport_handshake_copy(o.h.get()));
            REQUIRE(c.h, "not-copied", "a handshake (%s) can not be copied", o.hist.c_str());
            c.who = o.who; c.forged = o.forged; c.pin = o.pin; c.evo = o.evo; c.init = o.init; c.st = o.st; c.sid = o.sid; c.rid = o.rid; c.peer = o.peer; c.sevo = o.sevo; c.user = o.user;
            c.hist = o.hist + "; copied";
            EXPECT(wickr_transport_handshake_get_user_data(c.h.get()) == c.user && wickr_transport_handshake_get_status(c.h.get()) == (wickr_transport_handshake_status)c.st, "copy", "a copied handshake (%s) is in another state", o.hist.c_str());
            ev("copies");
            if (r.chance(1, 3)) hs[xi] = std::move(c); else hs.push_back(std::move(c));
            continue;
        }
        if (pk.size() && pk.size() < 24 && r.chance(1, 6)) { size_t j = r.below(pk.size()); variant(pk[j]); continue; }
        Hs &x = hs[xi];
        // the documented next step, if there is one
        if (!r.chance(1, (uint64_t)calm)) {
            if (x.st == UNK) {
                std::vector<int> c;
                for (size_t j = 0; j < pk.size(); j++) if (pk[j].seed && pk[j].good && (x.pin < 0 || x.pin == pk[j].author)) c.push_back((int)j);
                if (c.size() && r.chance(2, 3)) process(x, c[r.below(c.size())]); else start(x);
                continue;
            }
            if (x.st == PROG) {
                std::vector<int> c;
                for (size_t j = 0; j < pk.size(); j++) if (!pk[j].seed && pk[j].sid == x.sid && (pk[j].good || r.chance(1, 3))) c.push_back((int)j);
                if (c.size()) { process(x, c[r.below(c.size())]); continue; }
                if (r.chance(3, 4)) continue;
            }
            if (x.st == VERIF) { decide(x, !r.chance(1, 5)); continue; }
            if (x.st == FINAL) { finalize(x); continue; }
        }
        switch (r.below(8)) {
        case 0: start(x); break;
        case 1: case 2: case 3: if (pk.size()) process(x, (int)r.below(pk.size())); break;
        case 4: if (r.chance(1, 4)) process(x, -1); break;
        case 5: decide(x, r.chance(2, 3)); break;
        case 6: finalize(x); break;
        case 7: if (hs.size() > 2 && r.chance(1, 2)) hs.erase(hs.begin() + (long)xi); break;
        }
    }
    for (auto &e : edges) distinct(e);
    if (k < 3 && hs.size()) sample(hs[0].hist);
}
}
