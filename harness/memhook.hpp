// Watches what the library allocates and frees. Memory OpenSSL manages for itself is kept apart, so that what remains is
// the library's own (and that of protobuf-c, which the library is responsible for).
// Include in exactly one translation unit of a harness (sanitizer builds).
#pragma once
#include "common.hpp"
#include <openssl/crypto.h>
#include <sanitizer/allocator_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

namespace v {
// ------------------------------------------------------------------ OpenSSL's own memory
static thread_local int t_ossl = 0;
static void *om(size_t n, const char *, int) { t_ossl++; void *p = malloc(n); t_ossl--; return p; }
static void *orl(void *q, size_t n, const char *, int) { t_ossl++; void *p = realloc(q, n); t_ossl--; return p; }
static void of(void *p, const char *, int) { t_ossl++; free(p); t_ossl--; }
static bool g_ossl_apart = false;
__attribute__((constructor(200))) static void ossl_apart() { g_ossl_apart = CRYPTO_set_mem_functions(om, orl, of) == 1; }

// ------------------------------------------------------------------ ledger of live blocks by owner
struct Ledger {
    static const size_t N = 1 << 18;
    struct Ent { uintptr_t p; uint32_t tag; };
    static const uintptr_t TOMB = 1;
    Ent *t = nullptr;
    size_t used = 0;
    uint32_t cur = 0;                         // owner of what is allocated now (0: not watched)
    uint32_t live[65536], freed[65536];       // per owner: live blocks, blocks freed since mark()
    uint64_t total = 0, foreign = 0;
    void start() { if (!t) t = (Ent *)__builtin_calloc(N, sizeof(Ent)); memset(t, 0, N * sizeof(Ent)); used = 0; memset(live, 0, sizeof live); memset(freed, 0, sizeof freed); cur = 0; }
    void add(const volatile void *p)
    {
        if (!cur || t_ossl || g_harness_depth || !t) return;
        if (used > N * 3 / 4) return;
        size_t i = ((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 46;
        while (t[i].p) i = (i + 1) & (N - 1);
        t[i] = { (uintptr_t)p, cur };
        used++; total++;
        live[cur]++;
    }
    void del(const volatile void *p)
    {
        if (!p || !t || !used) return;
        size_t i = ((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 46;
        for (; t[i].p; i = (i + 1) & (N - 1)) if (t[i].p == (uintptr_t)p) {
            live[t[i].tag]--; freed[t[i].tag]++;
            t[i].p = TOMB;
            return;
        }
    }
};
static thread_local Ledger *t_ledger = nullptr;
static void (*g_free_watch)(const volatile void *p, size_t n) = nullptr;     // called for every block released by the library
static void mh_malloc(const volatile void *p, size_t) { if (t_ledger) t_ledger->add(p); }
static void mh_free(const volatile void *p)
{
    if (t_ledger) t_ledger->del(p);
    if (g_free_watch && p && !t_ossl && !g_harness_depth) g_free_watch(p, __sanitizer_get_allocated_size((const void *)p));
}
static bool memhook_install()
{
    if (!&__sanitizer_install_malloc_and_free_hooks || !g_ossl_apart) return false;
    __sanitizer_install_malloc_and_free_hooks(mh_malloc, mh_free);
    return true;
}
struct Owner { uint32_t old; explicit Owner(uint32_t tag) : old(t_ledger->cur) { t_ledger->cur = tag; } ~Owner() { t_ledger->cur = old; } };
} // namespace v
