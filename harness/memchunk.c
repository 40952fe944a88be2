/* chunk allocator: every history of K requests */
#include "vp.h"
#include "mem/memchunk.h"
static struct { uint8_t* p; size_t n, at; uint8_t b; } a[K];
#if defined VP_CBMC
#define DISJOINT(p, n, q, m) (!__CPROVER_same_object(p, q) || __CPROVER_POINTER_OFFSET(p) + (n) <= __CPROVER_POINTER_OFFSET(q) || __CPROVER_POINTER_OFFSET(q) + (m) <= __CPROVER_POINTER_OFFSET(p))
#else
#define DISJOINT(p, n, q, m) ((uintptr_t)(p) + (n) <= (uintptr_t)(q) || (uintptr_t)(q) + (m) <= (uintptr_t)(p))
#endif
static const size_t sizes[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33, 256, 257, 1024, 1025 };
static const int huge[] = { 1, 7, 8, 9 };
void harness(void)
{
    MEMCHUNK c; size_t bs, k, i; int huge_bs;
#if SYM
    bs = vp_u64("block size"); vp_alloc_max = MAXSIZE;
#else
    bs = sizes[vp_pick_range("block size", 0, BSHI)]; vp_alloc_max = 100000;
#endif
    if (vp_pick_range("static", 0, 1)) { MEMCHUNK t = MEMCHUNK_INITIALIZER(bs); c = t; }
    else { ((uint8_t*)&c)[3] = vp_u8("junk"); memchunk_init(&c, bs); }
    huge_bs = bs > SIZE_MAX - 4096;
    for (k = 0; k < K; k++) {
        size_t n, before = (size_t)vp_alloc_failed; uint8_t* p;
#if SYM
        n = vp_u64("size");
#else
        n = (size_t)vp_pick_range("size", 0, NHI); if (n == NHI) n = (size_t)0 - (size_t)huge[vp_pick_range("huge", 0, 3)]; else if (n == NHI - 1) n = ((size_t)1 << 62) + (size_t)vp_pick_range("huge", 0, 1); else if (NHI > 30) n = sizes[n % 22];
#endif
        vp_fail_mode = FAIL; p = memchunk_alloc(&c, n); vp_fail_mode = 0;
        a[k].p = p; a[k].n = 0;
        if (p == NULL) { vp_assert((size_t)vp_alloc_failed > before || n > SIZE_MAX - 4096 || huge_bs, "a request fails only when the heap refuses or the size is not representable"); continue; }
        a[k].n = n;
        if (n == 0) continue;
        vp_assert(n <= vp_alloc_max && vp_region_ok(p, n), "the region lies inside heap memory");
        for (i = 0; i < k; i++) if (a[i].n > 0) vp_assert(DISJOINT(a[i].p, a[i].n, p, n), "the region overlaps no earlier one");
#if SYM
        a[k].at = vp_u64("at"); vp_assume(a[k].at < n); a[k].b = vp_u8("content"); p[a[k].at] = a[k].b;
#else
        for (i = 0; i < n; i++) p[i] = (uint8_t)(k * 37 + i * 11 + 129);
#endif
    }
    for (k = 0; k < K; k++) if (a[k].n > 0) {
#if SYM
        vp_assert(a[k].p[a[k].at] == a[k].b, "data stays intact");
#else
        for (i = 0; i < a[k].n; i++) vp_assert_x(a[k].p[i] == (uint8_t)(k * 37 + i * 11 + 129), "data stays intact");
#endif
    }
    memchunk_fini(&c);
    vp_assert(vp_live == 0, "every heap block is released exactly once");
    vp_witness("end");
}
