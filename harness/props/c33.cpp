// C33: nothing the library gives, sends or decides comes from memory that was never written. Every operation runs under valgrind's
// memcheck; what it returns, what it leaves in its inputs and what it puts on the wire must be defined, byte for byte.
#include "../faults.hpp"
#include <valgrind/memcheck.h>
namespace v {
const char *PROP_ID = "C33";
static bool may_succeed(const Oc &, const std::string &) { return false; }
static bool may_ignore(int) { return false; }
static void defined(const std::string &s, const char *what, const char *of)
{
    ev("bytes_checked", s.size());
    long at = (long)VALGRIND_CHECK_MEM_IS_DEFINED(s.data(), s.size());
    EXPECT(!at, fmt("undefined:%s of %s", what, of), "the %s of %s contain memory that was never written (near character %ld of their text)", what, of, at ? at - (long)s.data() : 0);
}
static void defined(const Bytes &b, const char *what, const char *of)
{
    ev("bytes_checked", b.size());
    long at = (long)VALGRIND_CHECK_MEM_IS_DEFINED(b.data(), b.size());
    EXPECT(!at, fmt("undefined:%s of %s", what, of), "byte %ld of %zu of the %s of %s was never written", at ? at - (long)b.data() : 0, b.size(), what, of);
}
static unsigned long errors() { return VALGRIND_COUNT_ERRORS; }
static void judged(unsigned long before, const char *name) { EXPECT(errors() == before, fmt("depends:%s", name), "%s decides or addresses memory by a value that was never written, or touches memory it does not own", name); }
void prop_init()
{
    if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under valgrind\n"); _exit(3); }
    E = plain_engine();
    Rng r(g_seed * 577 + 133);
    W.build(r, 4, E);
    kinds();
    make_ops();
    more_ops();
}
static void operation(const Mk &mk, Rng &r)
{
    unsigned long n = errors();
    Oc o = mk(r);
    bool ok = o.call();
    REQUIRE(ok, fmt("fails:%s", o.name), "%s fails although nothing failed", o.name);
    defined(o.out(), "results", o.name);
    defined(o.in(), "inputs", o.name);
    o.check();
    judged(n, o.name);
    ev("operations");
    distinct(fmt("%s", o.name));
    sample(o.name);
}
static void talk(Rng &r)
{
    unsigned long n = errors();
    Actor &a_ = any(r), &z_ = any(r);
    uint32_t evo = (uint32_t)r.pick({ 1, 2, 512 });
    auto a = make_ep("a", E, a_.dev.chain(), r.chance(1, 2) ? z_.pub.get() : NULL, evo), z = make_ep("z", E, z_.dev.chain(), r.chance(1, 2) ? a_.pub.get() : NULL, evo);
    a->start();
    pump(*a, *z);
    for (int i = 0; i < 4; i++) { (r.chance(1, 2) ? a : z)->send(r.bytes(r.range(1, 100))); pump(*a, *z); }
    REQUIRE(a->status() == TRANSPORT_STATUS_ACTIVE && z->status() == TRANSPORT_STATUS_ACTIVE, "fails:transport", "a conversation fails although nothing failed");
    for (auto *x : { a.get(), z.get() }) { for (auto &b : x->tx) { defined(b, "packets", "a transport"); ev("packets"); } for (auto &b : x->rx) defined(b, "data", "a transport"); }
    judged(n, "transport");
    // damaged packets: what is decided about them may not depend on such memory either
    auto *x = r.chance(1, 2) ? a.get() : z.get();
    auto *y = x == a.get() ? z.get() : a.get();
    size_t m = y->tx.size();
    y->send(r.bytes(20));
    if (y->tx.size() > m) {   // (a damaged sequence number can ask for any amount of work: the known finding of C11)
        Bytes b = y->tx.back(), rest(b.begin() + std::min<size_t>(9, b.size()), b.end());
        b.resize(b.size() - rest.size());
        rest = mutate(r, rest);
        b.insert(b.end(), rest.begin(), rest.end());
        x->feed(b);
        ev("damaged");
    }
    judged(n, "transport with a damaged packet");
    distinct(fmt("talk %u", evo));
    ev("conversations");
}
template <class T, class F> static void parse(Rng &r, const char *what, const Bytes &good, F f)
{
    unsigned long n = errors();
    for (int i = 0; i < 6; i++) {
        Bytes b = i == 0 ? good : mutate(r, good);
        View v(b);
        auto x = own(f(&v.b));
        if (x) { defined(dump(x.get()), "fields", what); ev("parsed"); } else ev("refused");
        ev("parses");
        distinct(fmt("parse %s %zu %d", what, b.size(), (bool)x));
    }
    judged(n, what);
}
static void parsers(Rng &r)
{
    Actor &a = any(r);
    auto by = [](wickr_buffer_t *b) { Bytes o = b ? B(b) : Bytes(); wickr_buffer_destroy(&b); return o; };
#define PARSE(T, what, bytes, ...) { Bytes g_ = bytes; if (!g_.empty()) parse<T>(r, what, g_, [&](const wickr_buffer_t *b) { return __VA_ARGS__; }); }
    switch (r.below(8)) {
        case 0: { auto s = sealed(r); PARSE(wickr_packet_t, "packet", s.bytes, wickr_packet_create_from_buffer((wickr_buffer_t *)b))
                  View v(s.bytes); auto p = own(wickr_packet_create_from_buffer(v)); if (p) { unsigned long n = errors(); for (int i = 0; i < 3; i++) { Bytes d = mutate(r, s.bytes); View dv(d); auto q = own(wickr_ctx_parse_packet(any(r).ctx(), dv, a.dev.chain())); if (q) defined(dump(q.get()), "fields", "parsed message"); ev("parses"); } judged(n, "parsing a damaged message"); } break; }
        case 1: { PARSE(wickr_node_t, "device", by(wickr_node_serialize(a.node.get())), wickr_node_create_from_buffer(b, &E)) break; }
        case 2: { PARSE(wickr_identity_chain_t, "identity chain", by(wickr_identity_chain_serialize(a.dev.chain())), wickr_identity_chain_create_from_buffer(b, &E)) break; }
        case 3: { auto c = own(cres(r)); PARSE(wickr_cipher_result_t, "cipher result", by(wickr_cipher_result_serialize(c.get())), wickr_cipher_result_from_buffer(b)) auto k = own(ckey(r)); PARSE(wickr_cipher_key_t, "cipher key", by(wickr_cipher_key_serialize(k.get())), wickr_cipher_key_from_buffer(b)) break; }
        case 4: { auto s = own(sig(r)); PARSE(wickr_ecdsa_result_t, "signature", by(wickr_ecdsa_result_serialize(s.get())), wickr_ecdsa_result_create_from_buffer(b)) auto m = own(kmeta(r)); PARSE(wickr_kdf_meta_t, "kdf settings", by(wickr_kdf_meta_serialize(m.get())), wickr_kdf_meta_create_with_buffer(b)) break; }
        case 5: { auto t = own(tpkt(r)); PARSE(wickr_transport_packet_t, "transport packet", by(wickr_transport_packet_serialize(t.get())), wickr_transport_packet_create_from_buffer(b)) auto k = own(strk(r)); PARSE(wickr_stream_key_t, "stream key", by(wickr_stream_key_serialize(k.get())), wickr_stream_key_create_from_buffer(b)) break; }
        case 6: { auto k = own(skeys(r)); PARSE(wickr_storage_keys_t, "storage keys", by(wickr_storage_keys_serialize(k.get())), wickr_storage_keys_create_from_buffer(b)) auto p = own(payl(r)); PARSE(wickr_payload_t, "payload", by(wickr_payload_serialize(p.get())), wickr_payload_create_from_buffer(b)) break; }
        default: { auto k = own(real_roots(r)); PARSE(wickr_root_keys_t, "root keys", by(wickr_root_keys_serialize(k.get())), wickr_root_keys_create_from_buffer(&E, b)) auto e = own(real_eph(r)); PARSE(wickr_ephemeral_keypair_t, "ephemeral key", by(wickr_ephemeral_keypair_serialize(e.get())), wickr_ephemeral_keypair_create_from_buffer(b, &E)) break; }
    }
}
void prop_case(uint64_t k, Rng &r)
{
    size_t n = OPS.size() + 48, i = (size_t)(k % n);
    if (i < OPS.size()) operation(OPS[i], r);
    else if (i < OPS.size() + 16) talk(r);
    else parsers(r);
}
void prop_fini() {}
} // namespace v
