/* Stand-in for crypt_blowfish's ow-crypt.h: the system libcrypt provides the same algorithm behind other buffer sizes. */
#ifndef SHIM_OW_CRYPT_H
#define SHIM_OW_CRYPT_H
#define crypt_rn shim_crypt_rn
#define crypt_gensalt_rn shim_crypt_gensalt_rn
char *shim_crypt_rn(const char *key, const char *setting, void *data, int size);
char *shim_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size);
#endif
