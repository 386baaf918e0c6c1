/* Small helpers for demonstrations: build devices, identities and messages with the public API. */
#include "wickr_ctx.h"
#include "transport_ctx.h"
#include "transport_handshake.h"
#include "stream_ctx.h"
#include "stream_key.h"
#include "fingerprint.h"
#include "openssl_suite.h"
#include "openssl_file_suite.h"
#include "ecdh_cipher_ctx.h"
#include "crypto_engine.h"
#include "payload.h"
#include "util.h"
#include "b32.h"
#include "memory.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define CHECK(c, ...) do { if (!(c)) { printf("FAILED (%s:%d): ", __FILE__, __LINE__); printf(__VA_ARGS__); printf("\n"); exit(1); } } while (0)

static inline wickr_buffer_t *buf(const void *p, size_t n) { return wickr_buffer_create((const uint8_t *)p, n); }
static inline wickr_buffer_t *str(const char *s) { return buf(s, strlen(s)); }
static inline wickr_buffer_t *fill(uint8_t c, size_t n) { wickr_buffer_t *b = wickr_buffer_create_empty(n); memset(b->bytes, c, n); return b; }
static inline int eqb(const wickr_buffer_t *a, const wickr_buffer_t *b) { return a && b && a->length == b->length && !memcmp(a->bytes, b->bytes, a->length); }

typedef struct { wickr_ctx_gen_result_t *gen; wickr_ctx_t *ctx; } device_t;

static inline device_t device(const char *user, const char *sys)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_buffer_t *s = str(sys), *u = str(user);
    wickr_dev_info_t *di = wickr_dev_info_create_new(&e, s);
    device_t d = { wickr_ctx_gen_new(e, di, u), NULL };
    CHECK(d.gen && d.gen->ctx, "device");
    d.ctx = d.gen->ctx;
    return d;
}
static inline device_t second_device(device_t *first, const char *user, const char *sys)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_buffer_t *s = str(sys), *u = str(user);
    wickr_dev_info_t *di = wickr_dev_info_create_new(&e, s);
    device_t d = { wickr_ctx_gen_with_root_keys(e, di, first->gen->root_keys, u), NULL };
    CHECK(d.gen && d.gen->ctx, "second device");
    d.ctx = d.gen->ctx;
    return d;
}
static inline wickr_ephemeral_keypair_t *ephemeral(device_t *d, uint64_t id)
{
    wickr_ephemeral_keypair_t *k = wickr_ctx_ephemeral_keypair_gen(d->ctx, id);
    CHECK(k, "ephemeral key");
    return k;
}
/* what other people know about a device */
static inline wickr_identity_chain_t *pub_chain(device_t *d)
{
    wickr_buffer_t *s = wickr_identity_chain_serialize(d->ctx->id_chain);
    wickr_identity_chain_t *c = wickr_identity_chain_create_from_buffer(s, &d->ctx->engine);
    CHECK(c, "public chain");
    wickr_buffer_destroy(&s);
    return c;
}
static inline wickr_node_t *pub_node(device_t *d, wickr_ephemeral_keypair_t *k)
{
    wickr_node_t *n = wickr_node_create(wickr_buffer_copy(d->ctx->dev_info->msg_proto_id), wickr_identity_chain_copy(d->ctx->id_chain), wickr_ephemeral_keypair_copy(k));
    wickr_buffer_t *s = wickr_node_serialize(n);
    wickr_node_t *p = wickr_node_create_from_buffer(s, &d->ctx->engine);
    CHECK(p, "public node");
    wickr_node_destroy(&n);
    wickr_buffer_destroy(&s);
    return p;
}
static inline wickr_payload_t *message(const char *text)
{
    wickr_packet_meta_t *m = wickr_packet_meta_create((wickr_ephemeral_info_t){ 60, 5 }, str("channel"), 1);
    wickr_payload_t *p = wickr_payload_create(m, str(text));
    CHECK(p, "payload");
    return p;
}
