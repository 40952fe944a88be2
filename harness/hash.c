#include "vp.h"
#ifndef TAIL
#define TAIL 0
#endif
#include "hash/crc32.h"
#include "hash/fnv1a.h"
static uint32_t tab[256];
static void mktab(void) { int n, k; for (n = 0; n < 256; n++) { uint32_t c = (uint32_t)n; for (k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xedb88320u : c >> 1; tab[n] = c; } }
/* data in a heap block of exactly n bytes: any other read is an error. Bytes outside the window are constants. */
static size_t n; static uint8_t *data, *copy;
static void fill(size_t lo, size_t hi, size_t win)
{
    size_t i; n = lo == hi ? lo : vp_pick_range("n", lo, hi); data = vp_block(n); copy = vp_block(n);
    for (i = 0; i < n; i++) copy[i] = data[i] = ((i < win && !TAIL) || i + win >= n) ? vp_u8("data") : (uint8_t)(i * 13 + (i >> 7));
}
#ifndef WIN
#define WIN N
#define LO 0
#endif
void harness(void)
{
    size_t i;
#if KIND == 0
    uint32_t c = 0xffffffffu;
    mktab(); fill(LO, N, WIN);
    for (i = 0; i < n; i++) c = (c >> 8) ^ tab[(c ^ copy[i]) & 0xff];
    vp_assert_x(crc32(data, n) == (c ^ 0xffffffffu), "CRC-32 value");
#elif KIND == 1
    uint32_t h, h0; size_t k;
    fill(LO, N, WIN); h = h0 = vp_u32("h"); k = WIN == N ? vp_pick_range("split", 0, n) : n / 2 + 1;
    for (i = 0; i < n; i++) h = (h ^ copy[i]) * 16777619u;
    vp_assert_x(fnv1a_32(h0, data, n) == h, "FNV-1a 32 value");
    vp_assert_x(fnv1a_32(fnv1a_32(h0, data, k), data + k, n - k) == h, "FNV-1a 32 in two pieces");
    vp_assert_x(FNV1A_BASE_32 == 2166136261u, "FNV-1a 32 offset basis");
#elif KIND == 2
    uint64_t h, h0; size_t k;
    fill(LO, N, WIN); h = h0 = vp_u64("h"); k = WIN == N ? vp_pick_range("split", 0, n) : n / 2 + 1;
    for (i = 0; i < n; i++) h = (h ^ copy[i]) * 1099511628211ull;
    vp_assert_x(fnv1a_64(h0, data, n) == h, "FNV-1a 64 value");
    vp_assert_x(fnv1a_64(fnv1a_64(h0, data, k), data + k, n - k) == h, "FNV-1a 64 in two pieces");
    vp_assert_x(FNV1A_BASE_64 == 14695981039346656037ull, "FNV-1a 64 offset basis");
#else
    /* table-free definition, bit by bit, for one and two bytes after an arbitrary prefix byte */
    uint32_t c = 0xffffffffu; int k;
    fill(0, 2, 2);
    for (i = 0; i < n; i++) { c ^= copy[i]; for (k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); }
    vp_assert_x(crc32(data, n) == ~c, "CRC-32 value, bitwise definition");
#endif
    vp_assert_same(data, copy, 0, n, "data untouched");
    vp_witness("end");
}
