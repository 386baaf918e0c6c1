PROPERTY='C33'
EDITS=[('src/b32.c','''    memset(padd, 0, sizeof(unsigned char) * 5);
    
    for (size_t i = 0; i < r; i++) {
        padd[i] = in[in_len - r + i];
    }
    
    if (!__base32_encode_block''','''    
    if (r == 0) {
        return true;
    }
    
    memcpy(padd, &in[in_len - r], r);
    
    if (!__base32_encode_block''')]
NEEDS='a length that is not a multiple of five'
BREAKS='the last character of the text carries up to four bits of whatever the stack holds, so equal data has different texts'
DEMO=r'''
static __attribute__((noinline)) int dirty(int v) { volatile unsigned char x[16384]; memset((void *)x, v, sizeof x); return x[77]; }
int main(void)
{
    for (size_t n = 1; n <= 4; n++) {
        uint8_t d[] = { 1, 2, 3, 4 };
        wickr_buffer_t b = { n, d };
        wickr_buffer_t *first = NULL;
        for (int v = 0; v < 256; v += 51) {
            dirty(v);
            wickr_buffer_t *t = base32_encode(&b);
            CHECK(t, "encode");
            wickr_buffer_t *back = base32_decode(t);
            CHECK(back && back->length >= n && !memcmp(back->bytes, d, n), "decode");
            if (!first) first = t;
            CHECK(eqb(first, t), "the text of %zu bytes depends on what the stack holds: %.*s, %.*s", n, (int)first->length, (char *)first->bytes, (int)t->length, (char *)t->bytes);
        }
    }
    return 0;
}
'''
