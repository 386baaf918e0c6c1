PROPERTY='C15'
EDITS=[('src/payload.c','''    if (payload->meta->ephemerality_settings.bor != 0) {''','''    if (payload->meta->ephemerality_settings.bor != 0 &&
        payload->meta->ephemerality_settings.bor != payload->meta->ephemerality_settings.ttl) {''')]
NEEDS='a payload whose burn-on-read time equals its expiry time'
BREAKS='the burn-on-read setting is lost when a payload is serialized'
DEMO=r'''
int main(void)
{
    uint64_t v[] = { 0, 1, 5, 60, 255, 256, 86400, 0xffffffffull, 0x100000000ull };
    for (int i = 0; i < 9; i++)
        for (int j = 0; j < 9; j++) {
            wickr_packet_meta_t *m = wickr_packet_meta_create((wickr_ephemeral_info_t){ v[i], v[j] }, str("channel"), 1);
            wickr_payload_t *p = wickr_payload_create(m, str("body"));
            wickr_buffer_t *s = wickr_payload_serialize(p);
            wickr_payload_t *q = wickr_payload_create_from_buffer(s);
            CHECK(q && q->meta->ephemerality_settings.ttl == p->meta->ephemerality_settings.ttl && q->meta->ephemerality_settings.bor == p->meta->ephemerality_settings.bor,
                  "expiry %llu burn-on-read %llu do not survive", (unsigned long long)v[i], (unsigned long long)v[j]);
        }
    return 0;
}
'''
