PROPERTY='C09'
EDITS=[('src/transport_packet.c','''            memcpy(&meta_out->body_meta.data.sequence_number, buffer->bytes + sizeof(uint8_t), sizeof(uint64_t));
            loc += sizeof(uint64_t);''','''            for (int i = sizeof(uint64_t); i > 0; i--) {
                meta_out->body_meta.data.sequence_number = (meta_out->body_meta.data.sequence_number << 8) | (char)buffer->bytes[i];
            }
            loc += sizeof(uint64_t);''')]
NEEDS='more than 127 packets in one direction'
BREAKS='the 128th packet of a session is rejected and the transport ends in error'
DEMO=r'''
typedef struct { wickr_transport_ctx_t *t; wickr_buffer_t *q[4096]; int n; int got; wickr_buffer_t *last; } ep_t;
static void tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { ep_t *e = (ep_t *)wickr_transport_ctx_get_user_ctx(c); e->q[e->n++] = d; }
static void rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { ep_t *e = (ep_t *)wickr_transport_ctx_get_user_ctx(c); e->got++; e->last = d; }
static void st(const wickr_transport_ctx_t *c, wickr_transport_status s) { }
static void idv(const wickr_transport_ctx_t *c, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback cb) { cb(c, true); }
int main(void)
{
    device_t a = device("alice", "sysa"), b = device("bob", "sysb");
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    wickr_transport_callbacks_t cb = { tx, rx, st, idv };
    static ep_t A, B;
    A.t = wickr_transport_ctx_create(e, wickr_identity_chain_copy(a.ctx->id_chain), NULL, 0, cb, &A);
    B.t = wickr_transport_ctx_create(e, wickr_identity_chain_copy(b.ctx->id_chain), NULL, 0, cb, &B);
    wickr_transport_ctx_start(A.t);
    int ia = 0, ib = 0;
    for (int k = 0; k < 10; k++) {
        while (ia < A.n) wickr_transport_ctx_process_rx_buffer(B.t, A.q[ia++]);
        while (ib < B.n) wickr_transport_ctx_process_rx_buffer(A.t, B.q[ib++]);
    }
    CHECK(wickr_transport_ctx_get_status(A.t) == TRANSPORT_STATUS_ACTIVE && wickr_transport_ctx_get_status(B.t) == TRANSPORT_STATUS_ACTIVE, "handshake");
    for (int i = 1; i <= 700; i++) {
        wickr_buffer_t *d = fill(i & 255, 1 + i % 50);
        wickr_transport_ctx_process_tx_buffer(A.t, d);
        while (ia < A.n) wickr_transport_ctx_process_rx_buffer(B.t, A.q[ia++]);
        CHECK(B.got == i && eqb(B.last, d), "packet %d is not delivered", i);
    }
    return 0;
}
'''
