// C28: a failing provider operation fails the call it happens in, and nothing else. Every position of the sequence of
// provider calls of every operation is made to fail, once or for good, and so is every draw from the random source.
#include "ops.hpp"
namespace v {
const char *PROP_ID = "C28";

// ------------------------------------------------------------------ driver
static void clear_faults() { mon().reset(); rand_state().fail_after = -1; rand_state().calls = 0; shim_kdf_fail = 0; shim_kdf_failed = 0; }
enum Kind { ONCE, FOR_GOOD, RANDOM_SOURCE, KDF_PRIMITIVE };
static const char *const kind_name[] = { "once", "from then on", "in the random source", "in the passphrase hash" };
static void one_fault(const Mk &mkop, uint64_t seed, uint64_t at, Kind kind)
{
    Rng r(seed);
    Oc o = mkop(r);
    std::string before = o.in();
    clear_faults();
    uint64_t failed = 0;
    if (kind == RANDOM_SOURCE) rand_state().fail_after = (int64_t)at;
    else if (kind == KDF_PRIMITIVE) shim_kdf_fail = 1;
    else { mon().fail_at = (int64_t)at; mon().fail_persistent = kind == FOR_GOOD; }
    bool ok = o.call();
    Op op = mon().fail_op;
    failed = kind == RANDOM_SOURCE ? rand_state().calls > at : kind == KDF_PRIMITIVE ? shim_kdf_failed : mon().failed;
    clear_faults();
    const char *on = kind == RANDOM_SOURCE ? "rand" : kind == KDF_PRIMITIVE ? "kdf" : op == OP_COUNT ? "none" : op_name[op];
    if (!failed) return;
    ev(fmt("fault_%s", on).c_str());
    ev("faults");
    distinct(fmt("%s %" PRIu64 " %s %d %d", o.name, at, on, (int)kind, ok));
    if (ok) {
        std::string w = o.check();
        bool may = o.digest_ok && kind == ONCE && op == OP_DIGEST && w.empty();
        EXPECT(may, fmt("success:%s:%s", o.name, on), "%s reports success although provider call %" PRIu64 " (%s) failed %s%s%s", o.name, at, on, kind_name[kind], w.empty() ? "" : ": it gives ", w.c_str());
        if (may) ev("remembered_nothing");
        return;
    }
    EXPECT(o.in() == before, fmt("input-changed:%s", o.name), "%s changed what it was given when provider call %" PRIu64 " (%s) failed %s", o.name, at, on, kind_name[kind]);
    if (!o.retry) {
        EXPECT(!o.call(), fmt("revived:%s", o.name), "%s succeeds after the handshake failed", o.name);
        ev("failed_for_good");
        return;
    }
    bool again = o.call();
    EXPECT(again, fmt("not-again:%s:%s", o.name, on), "%s does not succeed again on the same objects after provider call %" PRIu64 " (%s) failed %s", o.name, at, on, kind_name[kind]);
    if (again) { std::string w = o.check(); EXPECT(w.empty(), fmt("wrong-again:%s", o.name), "%s repeated after provider call %" PRIu64 " (%s) failed gives %s", o.name, at, on, w.c_str()); ev("succeeded_again"); }
}
static void all_faults(const Mk &mkop, uint64_t seed)
{
    uint64_t n, rn, kd;
    const char *name;
    {
        Rng r(seed);
        Oc o = mkop(r);
        name = o.name;
        clear_faults();
        bool ok = o.call();
        n = mon().count; rn = rand_state().calls; kd = mon().per_op[OP_KDFGEN] + mon().per_op[OP_KDFMETA];
        clear_faults();
        REQUIRE(ok, fmt("fails:%s", name), "%s fails although nothing failed", name);
        std::string w = o.check();
        EXPECT(w.empty(), fmt("wrong:%s", name), "%s gives %s", name, w.c_str());
    }
    ev("operations");
    ev(fmt("op_%s", name).c_str());
    for (uint64_t i = 0; i < n; i++) { one_fault(mkop, seed, i, ONCE); if (i + 1 < n) one_fault(mkop, seed, i, FOR_GOOD); }
    Rng r(seed ^ 77);
    for (uint64_t i = 0; i < rn; i++) if (rn <= 12 || r.chance(12, (unsigned)rn)) one_fault(mkop, seed, i, RANDOM_SOURCE);
    if (kd) one_fault(mkop, seed, 0, KDF_PRIMITIVE);
    sample(fmt("%s: %" PRIu64 " provider calls, %" PRIu64 " random draws", name, n, rn));
}

// ------------------------------------------------------------------ transports: faults anywhere in a whole conversation
struct Plan { uint64_t seed; int a, z; bool pa, pz; uint32_t evo; int msgs; };
struct Outcome { bool ok = true; std::string why; uint64_t calls = 0; bool failed = false; };
static void conversation(const Plan &p, int64_t at, bool good, uint64_t &calls)
{
    Rng r(p.seed);
    Actor &A_ = W[p.a], &Z_ = W[p.z];
    auto a = make_ep("a", E, A_.dev.chain(), p.pa ? Z_.pub.get() : NULL, p.evo), z = make_ep("z", E, Z_.dev.chain(), p.pz ? A_.pub.get() : NULL, p.evo);
    clear_faults();
    mon().fail_at = at; mon().fail_persistent = good;
    bool over = false;
    std::vector<Bytes> sent[2];
    std::string where = "nowhere";
    // one call into a transport
    auto op = [&](Endpoint &x, const char *what, std::function<void()> f) {
        if (over) return;
        uint64_t before = mon().failed;
        size_t tx = x.tx.size(), rx = x.rx.size();
        int st = x.status();
        f();
        if (mon().failed == before) return;
        Op o = mon().fail_op;
        bool digest = o == OP_DIGEST && !good && x.status() != TRANSPORT_STATUS_ERROR;      // (remembering a verification may fail)
        where = fmt("%s of %s in state %d, %s", what, x.name, st, op_name[o]);
        distinct(fmt("transport %s %d %s %d", what, st, op_name[o], good));
        ev("transport_faults");
        ev(fmt("fault_%s", op_name[o]).c_str());
        if (digest) { ev("remembered_nothing"); return; }
        EXPECT(x.status() == TRANSPORT_STATUS_ERROR && x.error() != TRANSPORT_ERROR_NONE, "transport-unreported", "provider call failed (%s) and the transport is in state %d with error %d", where.c_str(), x.status(), x.error());
        EXPECT(x.rx.size() == rx, "transport-delivers", "provider call failed (%s) and data is delivered", where.c_str());
        EXPECT(st != TRANSPORT_STATUS_ACTIVE || x.tx.size() == tx, "transport-sends", "provider call failed (%s) and a packet is sent", where.c_str());
        over = true;
    };
    auto flow = [&] { for (int i = 0; i < 40 && !over; i++) {
        bool any_ = false;
        if (a->has_tx()) { any_ = true; Bytes b = a->take(); op(*z, "rx", [&] { z->feed(b); }); }
        if (!over && z->has_tx()) { any_ = true; Bytes b = z->take(); op(*a, "rx", [&] { a->feed(b); }); }
        if (!any_) break;
    } };
    op(*a, "start", [&] { a->start(); });
    flow();
    for (int i = 0; i < p.msgs && !over; i++) {
        int w = (int)r.below(2);
        Bytes d = r.bytes(r.range(1, 40));
        sent[w].push_back(d);
        Endpoint &x = w ? *z : *a;
        op(x, "tx", [&] { x.send(d); });
        flow();
    }
    calls = mon().count;
    bool any_fault = mon().failed > 0;
    clear_faults();
    for (int w = 0; w < 2; w++) {
        Endpoint &y = w ? *a : *z;
        for (size_t i = 0; i < y.rx.size(); i++) EXPECT(i < sent[w].size() && y.rx[i] == sent[w][i], "transport-data", "a transport delivers something that was not sent, or out of order (fault: %s)", where.c_str());
        if (!over) EXPECT(y.rx.size() == sent[w].size(), any_fault ? "transport-silent" : "transport-fails", "%zu of %zu messages arrive (fault: %s)", y.rx.size(), sent[w].size(), where.c_str());
    }
    if (!over) { EXPECT(a->status() == TRANSPORT_STATUS_ACTIVE && z->status() == TRANSPORT_STATUS_ACTIVE, any_fault ? "transport-silent" : "transport-fails", "a conversation ends in states %d and %d (fault: %s)", a->status(), z->status(), where.c_str()); if (!any_fault) ev("conversations"); return; }
    // the failed transport stays failed; the same identities work in a new one
    for (auto *x : { a.get(), z.get() }) if (x->status() == TRANSPORT_STATUS_ERROR) {
        size_t tx = x->tx.size(), rx = x->rx.size();
        x->send(Bytes(3, 1)); x->start(); x->decide(true); for (auto &b : (x == a.get() ? z : a)->tx) x->feed(b);
        EXPECT(x->status() == TRANSPORT_STATUS_ERROR && x->tx.size() == tx && x->rx.size() == rx, "transport-revived", "a transport works again after it failed (%s)", where.c_str());
        auto n = make_ep("n", E, wickr_transport_ctx_get_local_identity_ptr(x->t.get()), NULL, p.evo), m = make_ep("m", E, W[0].dev.chain(), NULL, p.evo);
        n->start();
        pump(*n, *m);
        n->send(Bytes(5, 7));
        pump(*n, *m);
        EXPECT(m->rx.size() == 1 && m->rx[0] == Bytes(5, 7), "transport-not-again", "a new transport does not work after another failed (%s)", where.c_str());
        ev("new_transport_works");
    }
}
static void transports(Rng &r)
{
    Plan p;
    p.seed = r.u64(); p.a = (int)r.below(W.size()); p.z = (int)r.below(W.size()); p.pa = r.chance(1, 2); p.pz = r.chance(1, 2); p.evo = (uint32_t)r.pick({ 1, 2, 3 }); p.msgs = (int)r.range(0, 6);
    uint64_t n = 0, dummy;
    conversation(p, -1, false, n);
    for (uint64_t i = 0; i < n; i++) conversation(p, (int64_t)i, r.chance(1, 3), dummy);
}

void prop_init()
{
    E = mon_engine();
    Rng r(g_seed * 577 + 28);
    W.build(r, 7, E);
    clear_faults();
    make_ops();
}
void prop_case(uint64_t k, Rng &r)
{
    size_t n = OPS.size() + 4;
    size_t i = (size_t)(k % n);
    if (i < OPS.size()) all_faults(OPS[i], r.u64());
    else transports(r);
}
void prop_fini() { clear_faults(); }
} // namespace v
