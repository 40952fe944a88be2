/* BUFFER against an ideal byte sequence: K operations from every reachable state (size, capacity) in the bounds, all contents symbolic */
#include "vp.h"
#include "vp_alloc.h"
#include "data/buffer.h"
#ifndef FAIL
#define FAIL 0
#endif
#define MAXM 4400
static uint8_t m[MAXM]; static size_t ms;
#if defined BIG && BIG == 2
static const uint16_t sizes[] = { 0, 1, 15, 16, 17, 64, 65, 128, 256, 257, 480, 481 };
static const uint16_t counts[] = { 0, 1, 16, 17, 224, 225, 256 };
#elif defined BIG
/* sizes around every rounding threshold of the capacity */
static const uint16_t sizes[] = { 0, 1, 3, 4, 5, 15, 16, 17, 63, 64, 65, 127, 129, 255, 256, 257, 479, 480, 481, 991, 992, 993, 1100 };
static const uint16_t counts[] = { 0, 1, 2, 15, 16, 17, 64, 240, 255, 256, 257, 479, 480, 500, 1000, 1100, 2100 };
#endif
#ifdef BIG
static size_t pick_size(void) { return sizes[vp_pick_range("size", 0, sizeof sizes / sizeof *sizes - 1)]; }
static size_t pick_count(void) { return counts[vp_pick_range("count", 0, sizeof counts / sizeof *counts - 1)]; }
static size_t pick_off(size_t s) { switch (vp_pick_range("off", 0, 3)) { case 0: return 0; case 1: return s; case 2: return s / 2; default: return s ? s - 1 : 0; } }
#else
static size_t pick_size(void) { return vp_pick_range("size", 0, S); }
static size_t pick_count(void) { return vp_pick_range("count", 0, C); }
static size_t pick_off(size_t s) { return vp_pick_range("off", 0, s); }
#endif
static void m_insert(size_t off, const uint8_t* p, size_t n) { memmove(m + off + n, m + off, ms - off); if (n) memcpy(m + off, p, n); ms += n; }
static void m_remove(size_t off, size_t n) { if (n > ms - off) n = ms - off; memmove(m + off, m + off + n, ms - off - n); ms -= n; }
static void check(const BUFFER* b, const char* what)
{
    vp_assert_x(buffer_size(b) == ms, what);
    vp_assert_x((buffer_is_empty(b) != 0) == (ms == 0), "emptiness");
    if (ms) {
        vp_assert(vp_region_ok(buffer_const_data(b), ms), "the whole content lies in the allocated block");
        vp_assert_same(buffer_const_data(b), m, 0, ms, what);
        vp_assert(buffer_data((BUFFER*)b) == buffer_const_data(b) && buffer_const_data_at(b, ms - 1) == (const uint8_t*)buffer_const_data(b) + ms - 1 && buffer_data_at((BUFFER*)b, ms / 2) == (uint8_t*)buffer_data((BUFFER*)b) + ms / 2, "accessors agree");
    }
}
/* a buffer with a given size; capacity either the natural one or set explicitly */
static void build(BUFFER* b, size_t s)
{
    size_t i, slack; uint8_t* p;
    buffer_init(b); ms = 0;
    slack = vp_pick_range("slack", 0, SLACK);
    if (slack && s + slack - 1) vp_assert(buffer_realloc(b, s + (slack - 1) * STEP) == 0, "setting the capacity succeeds");
    if (s) { p = buffer_append_raw(b, s); vp_assert(p != NULL, "append succeeds"); for (i = 0; i < s; i++) m[i] = p[i] = vp_u8("content"); }
    ms = s;
    check(b, "content after building");
}
static uint8_t* src(size_t n, uint8_t** copy) { *copy = vp_block(n); return vp_filled("new", n, *copy); }
static void op(BUFFER* b)
{
    size_t off, n, i; uint8_t *p, *c; int r; long calls; long failed = vp_alloc_failed;
    switch ((int)vp_pick_range("op", 0, 8)) {
    case 0: off = pick_off(ms); n = pick_count(); p = src(n, &c); r = buffer_insert(b, off, p, n);
        if (r == 0) m_insert(off, c, n); else vp_assert(r == -1 && vp_alloc_failed > failed, "insert fails only when an allocation failed");
        vp_assert(!(n && r == 0 && vp_alloc_failed > failed), "a failed allocation is reported"); vp_assert_same(p, c, 0, n, "source untouched"); check(b, "insert"); break;
    case 1: off = pick_off(ms); n = pick_count(); p = buffer_insert_raw(b, off, n);
        if (p || n == 0) { vp_assert(n == 0 || p == buffer_data_at(b, off), "raw insert returns where the bytes live"); c = vp_block(n); if (n) vp_assert(vp_region_ok(p, n), "raw insert: writable region"); for (i = 0; i < n; i++) c[i] = p[i] = vp_u8("new"); m_insert(off, c, n); }
        else vp_assert(vp_alloc_failed > failed, "raw insert fails only when an allocation failed");
        check(b, "raw insert"); break;
    case 2: n = pick_count(); p = src(n, &c); r = buffer_append(b, p, n);
        if (r == 0) m_insert(ms, c, n); else vp_assert(r == -1 && vp_alloc_failed > failed, "append fails only when an allocation failed");
        check(b, "append"); break;
    case 3: n = pick_count(); off = ms; p = buffer_append_raw(b, n);
        if (p || n == 0) { vp_assert(n == 0 || p == buffer_data_at(b, off), "raw append returns where the bytes live"); c = vp_block(n); for (i = 0; i < n; i++) c[i] = p[i] = vp_u8("new"); m_insert(off, c, n); }
        else vp_assert(vp_alloc_failed > failed, "raw append fails only when an allocation failed");
        check(b, "raw append"); break;
    case 4: off = pick_off(ms); n = pick_count(); buffer_remove(b, off, n); m_remove(off, n); check(b, "remove"); break;
    case 5: off = pick_off(ms); n = vp_u64("huge"); vp_assume_x(n > (1u << 20)); buffer_remove(b, off, n); m_remove(off, ms); check(b, "remove with a huge count removes to the end"); break;
    case 6: n = pick_count(); r = buffer_reserve(b, n);
        if (r != 0) { vp_assert(vp_alloc_failed > failed, "reserve fails only when an allocation failed"); check(b, "failed reserve"); break; }
        check(b, "reserve");
        calls = vp_alloc_calls;
        if (n) { size_t k = n / 2; p = buffer_append_raw(b, k); vp_assert(k == 0 || p, "append within the reservation"); c = vp_block(n); for (i = 0; i < k; i++) c[i] = p[i] = vp_u8("new");
            p = buffer_append_raw(b, n - k); vp_assert(p != NULL, "append within the reservation"); for (i = k; i < n; i++) c[i] = p[i - k] = vp_u8("new"); m_insert(ms, c, n); }
        vp_assert(vp_alloc_calls == calls, "no allocation within the reservation"); check(b, "append after reserve"); break;
    case 7: buffer_shrink(b); check(b, "shrink"); vp_assert(vp_alloc_failed > failed || buffer_data(b) == NULL || vp_objsize(buffer_data(b)) <= ms + ms / 7 + 8, "shrinking leaves at most a negligible part of the block unused"); break;
    case 8: n = vp_pick_range("realloc", 0, 4);
        switch (n) { case 0: n = 0; break; case 1: n = ms ? ms - 1 : 0; break; case 2: n = ms; break; case 3: n = ms / 2; break; default: n = ms + pick_count(); break; }
        r = buffer_realloc(b, n);
        if (r == 0) { if (n < ms) ms = n; vp_assert(n == 0 || vp_objsize(buffer_data(b)) >= n, "the capacity asked for is allocated"); } else vp_assert(vp_alloc_failed > failed, "realloc fails only when an allocation failed");
        check(b, "realloc"); break;
    }
}
void harness(void)
{
    BUFFER b; int k; size_t sz; void* d;
    build(&b, pick_size());
    vp_fail_mode = FAIL;
    for (k = 0; k < K; k++) op(&b);
    vp_fail_mode = 0;
    /* still usable, then leak-free in each of the ways a buffer can end */
    { uint8_t x[2]; x[0] = vp_u8("x"); x[1] = vp_u8("x"); vp_assert(buffer_append(&b, x, 2) == 0, "still usable"); m_insert(ms, x, 2); check(&b, "still usable"); }
#ifdef ENDS
    switch ((int)vp_pick_range("end", 0, 3)) {
    case 0: break;
    case 1: buffer_clear(&b); ms = 0; check(&b, "clear"); { uint8_t x = vp_u8("x"); vp_assert(buffer_append(&b, &x, 1) == 0, "reusable after clear"); m_insert(0, &x, 1); check(&b, "reusable after clear"); } break;
    case 2: d = buffer_acquire(&b, vp_pick_range("want_size", 0, 1) ? (sz = 12345, &sz) : (sz = ms, (size_t*)NULL));
        vp_assert(sz == ms, "acquire reports the size"); vp_assert(vp_region_ok(d, ms), "acquired block"); vp_assert_same(d, m, 0, ms, "acquired content");
        ms = 0; check(&b, "empty after acquire"); { uint8_t x = vp_u8("x"); vp_assert(buffer_append(&b, &x, 1) == 0 && buffer_data(&b) != d, "reusable after acquire"); m_insert(0, &x, 1); check(&b, "reusable after acquire"); }
        vp_free(d); break;
    case 3: { BUFFER o = BUFFER_INITIALIZER; uint8_t y[3]; size_t i, os = ms; uint8_t* om = vp_block(ms); memcpy(om, m, ms); for (i = 0; i < 3; i++) y[i] = vp_u8("y");
        if (vp_pick_range("other", 0, 1)) vp_assert(buffer_insert(&o, 0, y, 3) == 0, "append");
        i = buffer_size(&o); if (vp_pick_range("swap", 0, 1)) buffer_swap(&o, &b); else buffer_swap(&b, &o);
        vp_assert(buffer_size(&b) == i && buffer_size(&o) == os, "swap exchanges the sizes"); memcpy(m, y, i); ms = i; check(&b, "swap: second content"); memcpy(m, om, os); ms = os; check(&o, "swap: first content"); check(&o, "swap");
        buffer_fini(&o); break; }
    }
#endif
    buffer_fini(&b);
    vp_assert(vp_live == 0, "every block is released exactly once");
    vp_witness("end");
}
