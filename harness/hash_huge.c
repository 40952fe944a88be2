/* lengths beyond 32-bit counters. For the solver: the loop is replaced by an arbitrary iteration, every arithmetic step of it must
 * not wrap or truncate. For the replay: the real function over 2^31 / 2^32 mapped zero bytes between a few non-zero ones. */
#include "vp.h"
#include "hash/crc32.h"
#include "hash/fnv1a.h"
#if defined VP_CBMC
void harness(void) { const void* p; size_t n; uint64_t h; __CPROVER_assume(n < (size_t)1 << 62);   /* no object is larger */
#if KIND == 0
    crc32(p, n);
#elif KIND == 1
    fnv1a_32((uint32_t)(h & 0xffffffffu), p, n);
#else
    fnv1a_64(h, p, n);
#endif
}
#else
#include <stdio.h>
#include <sys/mman.h>
static uint32_t crc_byte(uint32_t c, uint8_t b) { int k; c ^= b; for (k = 0; k < 8; k++) c = (c >> 1) ^ ((c & 1) ? 0xedb88320u : 0); return c; }
static uint32_t crc_zeros(uint32_t c, uint64_t n)
{
    uint32_t m[32], t[32]; int i, j;
    for (i = 0; i < 32; i++) m[i] = crc_byte(1u << i, 0);
    for (; n; n >>= 1) {
        if (n & 1) { uint32_t r = 0; for (i = 0; i < 32; i++) if (c >> i & 1) r ^= m[i]; c = r; }
        for (i = 0; i < 32; i++) { t[i] = 0; for (j = 0; j < 32; j++) if (m[i] >> j & 1) t[i] ^= m[j]; }
        memcpy(m, t, sizeof m);
    }
    return c;
}
static uint64_t power(uint64_t b, uint64_t n) { uint64_t r = 1; for (; n; n >>= 1, b *= b) if (n & 1) r *= b; return r; }
void harness(void)
{
    uint64_t n = vp_bits("n", 64); uint64_t h; uint8_t* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vp_assume(p != MAP_FAILED);
    p[0] = 'x'; p[n - 1] = 'y';
#if KIND == 0
    vp_assert(crc32(p, n) == (uint32_t)~crc_byte(crc_zeros(crc_byte(0xffffffffu, 'x'), n - 2), 'y'), "CRC-32 of a huge block");
#elif KIND == 1
    h = 0x811c9dc5u; h = (h ^ 'x') * 16777619u; h *= power(16777619u, n - 2); h = (uint32_t)((h ^ 'y') * 16777619u);
    vp_assert(fnv1a_32(0x811c9dc5u, p, n) == (uint32_t)h, "FNV-1a 32 of a huge block");
#else
    h = 0xcbf29ce484222325ull; h = (h ^ 'x') * 1099511628211ull; h *= power(1099511628211ull, n - 2); h = (h ^ 'y') * 1099511628211ull;
    vp_assert(fnv1a_64(0xcbf29ce484222325ull, p, n) == h, "FNV-1a 64 of a huge block");
#endif
}
#endif
