// C31: running out of memory fails the call it happens in, and nothing else. Every allocation that every operation makes is
// refused in turn, alone or with all later ones.
#include "../faults.hpp"
#include <protobuf-c/protobuf-c.h>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
ProtobufCMessage *__real_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *, ProtobufCAllocator *, size_t, const uint8_t *);
void *__wrap_malloc(size_t n) { return v::refuse("malloc", n) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return v::refuse("calloc", n * m) ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return v::refuse("realloc", n) ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return v::refuse("strdup", 0) ? NULL : __real_strdup(s); }
// (its own allocations are out of reach, so it is refused as a whole)
ProtobufCMessage *__wrap_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t n, const uint8_t *b) { return v::refuse("protobuf_c_message_unpack", 0) ? NULL : __real_protobuf_c_message_unpack(d, a, n, b); }
}
namespace v {
const char *PROP_ID = "C31";
static bool may_succeed(const Oc &, const std::string &wrong) { return wrong.empty(); }
static bool may_ignore(int) { return true; }      // (then everything has to arrive)
void prop_init()
{
    UNIT = "allocation";
    E = plain_engine();
    Rng r(g_seed * 577 + 31);
    W.build(r, 5, E);
    kinds();
    make_ops();
    more_ops();
}
static const size_t CONV = 8;
void prop_case(uint64_t k, Rng &r)
{
    size_t n = OPS.size() + CONV, i = (size_t)(k % n);
    if (i < OPS.size()) all_faults(OPS[i], r.u64());
    else transports(r);
}
void prop_fini() {}
} // namespace v
