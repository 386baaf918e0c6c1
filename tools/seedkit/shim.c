/* Implements the two submodules kdf.c needs (libscrypt, crypt_blowfish) on top of OpenSSL and the system libcrypt.
 * shim_kdf_fast=1 replaces both by a cheap keyed hash of *all* their arguments, so that properties which only need
 * "a pseudo-random function of passphrase, salt and cost" can be explored over thousands of passphrases. */
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <crypt.h>

int shim_kdf_fast = 1;
int shim_kdf_fail = 0;

static void prf(const void *pw, size_t pwlen, const void *salt, size_t saltlen, uint64_t N, uint64_t r, uint64_t p, uint8_t *out, size_t outlen)
{
    /* counter mode over SHA-512(len || pw || len || salt || params || ctr) */
    uint64_t ctr = 0;
    size_t off = 0;
    while (off < outlen) {
        uint8_t d[64];
        uint64_t h[6] = { pwlen, saltlen, N, r, p, ctr++ };
        SHA512_CTX c;
        SHA512_Init(&c);
        SHA512_Update(&c, h, sizeof h);
        if (pwlen) SHA512_Update(&c, pw, pwlen);
        if (saltlen) SHA512_Update(&c, salt, saltlen);
        SHA512_Final(d, &c);
        size_t n = outlen - off < 64 ? outlen - off : 64;
        memcpy(out + off, d, n);
        off += n;
    }
}

int libscrypt_scrypt(const uint8_t *passwd, size_t passwdlen, const uint8_t *salt, size_t saltlen,
                     uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen)
{
    if (shim_kdf_fail) return -1;
    if (shim_kdf_fast) { prf(passwd, passwdlen, salt, saltlen, N, r, p, buf, buflen); return 0; }
    return EVP_PBE_scrypt((const char *)passwd, passwdlen, salt, saltlen, N, r, p, (uint64_t)4 << 30, buf, buflen) == 1 ? 0 : -1;
}

char *shim_crypt_rn(const char *key, const char *setting, void *data, int size)
{
    if (shim_kdf_fail) return NULL;
    if (shim_kdf_fast) {
        /* bcrypt looks at 72 bytes at most; setting "$2y$15$" + 22 salt characters; output 60 characters */
        uint8_t d[31];
        char hex[63];
        size_t n = strlen(key);
        if (n > 72) n = 72;
        if (size < 61 || strlen(setting) < 29) return NULL;
        prf(key, n, setting, 29, 15, 0, 0, d, sizeof d);
        for (int i = 0; i < 31; i++) snprintf(hex + 2 * i, 3, "%02x", d[i]);
        memcpy(data, setting, 29);
        memcpy((char *)data + 29, hex, 31);
        ((char *)data)[60] = 0;
        return data;
    }
    struct crypt_data *cd = calloc(1, sizeof *cd);
    char *o = cd ? crypt_r(key, setting, cd) : NULL;
    char *ret = NULL;
    if (o && o[0] != '*' && (int)strlen(o) < size) { strcpy(data, o); ret = data; }
    if (cd) { volatile char *z = (volatile char *)cd; for (size_t i = 0; i < sizeof *cd; i++) z[i] = 0; }
    free(cd);
    return ret;
}

/* implemented here so that a deterministic random source fully determines the salt */
static const char b64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
char *shim_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size)
{
    if (shim_kdf_fail) return NULL;
    if (size < 16 || output_size < 7 + 22 + 1 || (count && (count < 4 || count > 31)) || strncmp(prefix, "$2y$", 4)) return NULL;
    if (!count) count = 5;
    snprintf(output, output_size, "$2y$%02lu$", count);
    const unsigned char *s = (const unsigned char *)input, *e = s + 16;
    char *d = output + 7;
    do {
        unsigned c1 = *s++, c2;
        *d++ = b64[c1 >> 2];
        c1 = (c1 & 3) << 4;
        if (s >= e) { *d++ = b64[c1]; break; }
        c2 = *s++;
        c1 |= c2 >> 4;
        *d++ = b64[c1];
        c1 = (c2 & 15) << 2;
        c2 = *s++;
        c1 |= c2 >> 6;
        *d++ = b64[c1];
        *d++ = b64[c2 & 63];
    } while (s < e);
    *d = 0;
    return output;
}
