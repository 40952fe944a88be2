/* MALLOCA / FREEA. MODE 0: every size and threshold with recording stand-ins for alloca, malloc and free; MODE 1: real stack blocks next to heap blocks */
#include "vp.h"
#include <stdlib.h>
#include <malloc.h>
#include <alloca.h>
#if MODE == 0
static char* base; static size_t req; static int kind, live, calls, freed, refused;
static void* rec_alloca(size_t n) { calls++; kind = 1; req = n; return base; }
static void* rec_malloc(size_t n) { calls++; kind = 2; req = n; if (vp_bool("refuse")) { refused = 1; return NULL; } live++; return base; }
static void rec_free(void* p) { vp_assert(kind == 2 && live == 1 && p == base, "only the heap block is released, exactly once"); live--; freed++; }
#undef malloc
#undef free
#define malloc(n) rec_malloc(n)
#define free(p) rec_free(p)
#include "mem/malloca.h"
#undef alloca
#define alloca(n) rec_alloca(n)
static void begin(void) { kind = live = calls = freed = refused = 0; base = vp_block(128); }
static void got(void* p, size_t s, size_t t)
{
    if (p == NULL) { vp_assert(refused || s > SIZE_MAX - 64, "null only when the heap refuses or the size is not representable"); return; }
    vp_assert(calls == 1, "one block is taken");
    { size_t off = (size_t)((char*)p - base); vp_assert((char*)p >= base && off <= 64, "the result lies in the block"); vp_assert(req >= off && req - off >= s, "at least the requested size is usable"); }
    if (kind == 1) vp_assert(s < t, "stack memory only below the threshold"); else vp_assert(s >= t || t - s <= 64, "small blocks are taken from the stack");
    { int i; for (i = 0; i < 8; i++) if ((size_t)i < s) ((uint8_t*)p)[i] = vp_u8("content"); }
}
static void done(void* p, size_t s) { vp_assert(live == 0, "the heap block is released"); vp_assert(freed == (p != NULL && kind == 2), "a stack block is never released"); (void)s; }
#define TRY(EXPR, THR, VAR) do { void* VAR; begin(); VAR = MALLOCA_(EXPR, THR); got(VAR, (size_t)(EXPR), (size_t)(THR)); FREEA(VAR); done(VAR, 0); } while (0)
#define TRY1(EXPR, VAR) do { void* VAR; begin(); VAR = MALLOCA(EXPR); got(VAR, (size_t)(EXPR), MALLOCA_THRESHOLD); FREEA(VAR); done(VAR, 0); } while (0)
void harness(void)
{
    size_t a = vp_u64("a"), b = vp_u64("b"), t = vp_u64("threshold"), u = vp_u64("threshold 2"); int ia = (int)vp_u32("int a"), c = vp_bool("c"); unsigned ua = (unsigned)vp_u32("unsigned a"); unsigned short sa = vp_u16("short a"); int it = (int)vp_u32("int threshold"); vp_assume_x(it >= 0);
    switch (vp_pick_range("form", 0, 19)) {
        case 0: TRY(a, t, p); break;
        case 1: TRY1(a, p); break;
        case 2: TRY(a | b, t, p); break;
        case 3: TRY(c ? a : b, t, q); break;
        case 4: TRY(a << 3, t, p); break;
        case 5: TRY(a & b, t | u, p); break;
        case 6: TRY(a, c ? t : u, p); break;
        case 7: TRY(a ^ b, t & u, p); break;
        case 8: TRY1(a | b, p); break;
        case 9: TRY1(c ? a : b, p); break;
        case 10: TRY(ia, it, p); break;
        case 11: TRY(ua, 256, p); break;
        case 12: TRY(sa, (unsigned short)256, p); break;
        case 13: TRY(sa * 4 + 1, 8, p); break;
        case 14: TRY(a, t, x); break;
        case 15: TRY1(a, ptr); break;
        case 16: TRY1(a == b, mark); break;
        case 17: TRY(a, 0, p); break;
        case 18: TRY(a < b, 1, p); break;
        default: { void* n = NULL; void* x = NULL; begin(); FREEA(n); FREEA(x); FREEA(NULL); vp_assert(freed == 0, "null pointers are accepted"); }
    }
    vp_witness("end");
}
#else
#undef malloc
#undef free
#define malloc vp_malloc
#define free vp_free
#include "mem/malloca.h"
static const size_t sizes[] = { 0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 1015, 1016, 1017, 1023, 1024, 1025 };
#define NS (sizeof(sizes) / sizeof(sizes[0]))
static void fill(uint8_t* p, size_t n, int s) { size_t i; for (i = 0; i < n; i++) p[i] = (uint8_t)(s * 55 + i * 7); }
static void keep(uint8_t* p, size_t n, int s) { size_t i; if (p) for (i = 0; i < n; i++) vp_assert_x(p[i] == (uint8_t)(s * 55 + i * 7), "memory is not shared with other live blocks"); }
void harness(void)
{
    size_t n = sizes[vp_pick_range("size 1", 0, NS - 1)], m = sizes[vp_pick_range("size 2", 0, NS - 1)], t = (size_t)vp_pick_range("threshold", 1, 3) * 32; uint8_t* x; uint8_t* y; uint8_t* z; long failed;
    vp_alloc_max = 100000; vp_fail_mode = 1; failed = vp_alloc_failed;
    x = MALLOCA_(n, t); if (x == NULL) vp_assert(vp_alloc_failed == failed + 1, "null only when the heap refuses"); else { vp_assert(vp_region_ok(x, n), "usable memory"); fill(x, n, 1); } failed = vp_alloc_failed;
    y = MALLOCA(m); if (y == NULL) vp_assert(vp_alloc_failed == failed + 1, "null only when the heap refuses"); else { vp_assert(vp_region_ok(y, m), "usable memory"); fill(y, m, 2); } failed = vp_alloc_failed;
    z = MALLOCA(n + m); if (z == NULL) vp_assert(vp_alloc_failed == failed + 1, "null only when the heap refuses"); else { vp_assert(vp_region_ok(z, n + m), "usable memory"); fill(z, n + m, 3); }
    keep(x, n, 1); keep(y, m, 2); keep(z, n + m, 3);
    switch (vp_pick_range("order", 0, 2)) {
        case 0: FREEA(x); keep(y, m, 2); FREEA(y); keep(z, n + m, 3); FREEA(z); break;
        case 1: FREEA(z); keep(x, n, 1); FREEA(y); keep(x, n, 1); FREEA(x); break;
        case 2: FREEA(y); keep(x, n, 1); keep(z, n + m, 3); FREEA(x); FREEA(z); break;
    }
    vp_assert(vp_live == 0, "every heap block is released exactly once");
    vp_witness("end");
}
#endif
