PROPERTY='C23'
EDITS=[('src/b32.c','''    for (size_t i = 0; i < r; i++) {
        padd[i] = in[in_len - r + i];
    }
    
    if(!__base32_decode_block(&padd[0], &out_buff[0])) {
        return false;
    }
    
    memmove(&out[d * 5], &out_buff[0], sizeof(unsigned char) * __base32_decode_length(r));''',
'''    for (size_t i = 0; i < r; i++) {
        padd[i] = in[in_len - r + i];
    }
    
    if(!__base32_decode_block(&padd[0], &out_buff[0])) {
        return false;
    }
    
    /* The output is sized for whole blocks unless a tail is present */
    memmove(&out[d * 5], &out_buff[0], sizeof(unsigned char) * (r > 5 ? 3 : __base32_decode_length(r)));''')]
NEEDS='text whose last block has 7 characters (a value of 4 bytes more than a multiple of 5)'
BREAKS='the last byte of values of certain lengths decodes to zero'
DEMO=r'''
int main(void)
{
    for (size_t n = 1; n < 60; n++) {
        wickr_buffer_t *b = fill(0, n);
        for (size_t i = 0; i < n; i++) b->bytes[i] = 37 * i + 201;
        wickr_buffer_t *t = base32_encode(b);
        wickr_buffer_t *o = base32_decode(t);
        CHECK(eqb(o, b), "%zu bytes do not survive", n);
    }
    return 0;
}
'''
