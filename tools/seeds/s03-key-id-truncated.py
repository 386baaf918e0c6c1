PROPERTY='C01'
EDITS=[('src/key_exchange.c','    proto_exchange->key_id = exchange->key_id;\n','    proto_exchange->key_id = (uint32_t)exchange->key_id;\n')]
NEEDS='an ephemeral key whose identifier does not fit 32 bits'
BREAKS='the packet names another ephemeral key identifier than the one it is addressed to, so the receiver does not find the key to open it'
DEMO=r'''
int main(void)
{
    device_t a = device("alice", "sysa"), b = device("bob", "sysb");
    uint64_t ids[] = { 0, 7, 0xffffffffull, 0x100000000ull, 0x8000000000000001ull };
    for (int i = 0; i < 5; i++) {
        wickr_ephemeral_keypair_t *k = ephemeral(&b, ids[i]);
        wickr_node_array_t *arr = wickr_node_array_new(1);
        wickr_node_array_set_item(arr, 0, pub_node(&b, k));
        wickr_encoder_result_t *r = wickr_ctx_encode_packet(a.ctx, message("hi"), arr);
        CHECK(r, "seal");
        wickr_buffer_t *s = wickr_packet_serialize(r->packet);
        wickr_ctx_packet_t *p = wickr_ctx_parse_packet(b.ctx, s, pub_chain(&a));
        CHECK(p && p->parse_result && p->parse_result->key_exchange, "parse");
        CHECK(p->parse_result->key_exchange->key_id == ids[i], "addressed to key %llu, packet says %llu", (unsigned long long)ids[i], (unsigned long long)p->parse_result->key_exchange->key_id);
    }
    return 0;
}
'''
