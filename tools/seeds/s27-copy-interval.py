PROPERTY='C27'
EDITS=[('src/transport_ctx.c','''    copy->evo_count = ctx->evo_count;''','''    copy->evo_count = ctx->pending_handshake ? ctx->evo_count : PACKET_PER_EVO_DEFAULT;''')]
NEEDS='a copy of a transport that has not started its handshake, with a key-evolution interval other than the default'
BREAKS='the copy behaves differently from the original: it negotiates another key-evolution interval'
DEMO=r'''
/* how often keys evolve while 1100 packets go one way, seen from the provider calls that evolution makes */
static unsigned long calls;
static wickr_buffer_t *(*real_hmac)(const wickr_buffer_t *, const wickr_buffer_t *, wickr_digest_t);
static wickr_buffer_t *hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) { calls++; return real_hmac(d, k, m); }
typedef struct { wickr_transport_ctx_t *t; wickr_buffer_t *q[4096]; int n; int got; } ep_t;
static void tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { ep_t *e = (ep_t *)wickr_transport_ctx_get_user_ctx(c); e->q[e->n++] = d; }
static void rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { ((ep_t *)wickr_transport_ctx_get_user_ctx(c))->got++; }
static void st(const wickr_transport_ctx_t *c, wickr_transport_status s) { }
static void idv(const wickr_transport_ctx_t *c, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback cb) { cb(c, true); }
static unsigned long evolutions(device_t *a, device_t *b, uint32_t evo, int copied)
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    real_hmac = e.wickr_crypto_engine_hmac_create;
    e.wickr_crypto_engine_hmac_create = hmac;
    wickr_transport_callbacks_t cb = { tx, rx, st, idv };
    ep_t *A = calloc(1, sizeof *A), *B = calloc(1, sizeof *B);
    A->t = wickr_transport_ctx_create(e, wickr_identity_chain_copy(a->ctx->id_chain), NULL, evo, cb, A);
    B->t = wickr_transport_ctx_create(e, wickr_identity_chain_copy(b->ctx->id_chain), NULL, evo, cb, B);
    if (copied) { wickr_transport_ctx_t *c = wickr_transport_ctx_copy(B->t); wickr_transport_ctx_destroy(&B->t); B->t = c; }
    wickr_transport_ctx_start(A->t);
    int ia = 0, ib = 0;
    for (int k = 0; k < 10; k++) {
        while (ia < A->n) wickr_transport_ctx_process_rx_buffer(B->t, A->q[ia++]);
        while (ib < B->n) wickr_transport_ctx_process_rx_buffer(A->t, B->q[ib++]);
    }
    CHECK(wickr_transport_ctx_get_status(A->t) == TRANSPORT_STATUS_ACTIVE, "handshake");
    calls = 0;
    for (int i = 0; i < 1100; i++) wickr_transport_ctx_process_tx_buffer(A->t, fill(i, 20));
    CHECK(A->n >= 1100, "sending");
    return calls;
}
int main(void)
{
    device_t a = device("alice", "sysa"), b = device("bob", "sysb");
    uint32_t v[] = { 0, 1, 7, 512, 1000 };
    for (int i = 0; i < 5; i++) {
        unsigned long x = evolutions(&a, &b, v[i], 0), y = evolutions(&a, &b, v[i], 1);
        CHECK(x == y, "a copied endpoint set to evolve keys every %u packets evolves them %lu times, the original %lu times", v[i], y, x);
    }
    return 0;
}
'''
