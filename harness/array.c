/* typed arrays against an ideal sequence */
#include "vp.h"
#include "vp_alloc.h"
#include "data/buffer.h"
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define F(name) CAT(array_, T, CAT(_, name, ))
#define A CAT(ARRAY_, T, )
#ifdef PTR
typedef void* E_; typedef const void* G_;
#define VAL() ((void*)(uintptr_t)vp_u64("v"))
#else
typedef CAT(T, _t, ) E_; typedef E_ G_;
#define VAL() ((E_)vp_bits("v", 8 * sizeof(E_)))
#endif
static E_ m[64]; static size_t ms;
static void check(A* a, const char* what)
{
    size_t i; const E_* d; E_* w;
    vp_assert(F(size)(a) == ms, "size counts elements"); vp_assert((F(is_empty)(a) != 0) == (ms == 0), "emptiness");
    d = (const E_*)F(const_data)(a); w = (E_*)F(data)(a); vp_assert(d == w, "data accessors agree");
    if (ms) vp_assert(vp_region_ok(d, ms * sizeof(E_)), "elements lie in the block");
    for (i = 0; i < ms; i++) { vp_assert_x(((uint64_t)(uintptr_t)d[i]) == ((uint64_t)(uintptr_t)m[i]), what); vp_assert_x((uint64_t)(uintptr_t)F(get)(a, i) == (uint64_t)(uintptr_t)m[i], "get"); }
}
static void m_ins(size_t i, size_t n) { memmove(m + i + n, m + i, (ms - i) * sizeof(E_)); ms += n; }
static void m_del(size_t i, size_t n) { if (n > ms - i) n = ms - i; memmove(m + i, m + i + n, (ms - i - n) * sizeof(E_)); ms -= n; }
static void op(A* a)
{
    size_t i, n, k; E_ v; int r; long failed = vp_alloc_failed; uint64_t huge;
#define RES(c) vp_assert((r == 0) == (vp_alloc_failed == failed), "fails exactly when an allocation failed"); if (r == 0) { c; } else vp_assert(r == -1, "failure is -1")
    switch ((int)vp_pick_range("op", OPLO, OPHI)) {
    case 0: i = vp_pick_range("i", 0, ms); v = VAL(); r = F(insert)(a, i, v); RES(m_ins(i, 1); m[i] = v); check(a, "insert"); break;
    case 1: i = vp_pick_range("i", 0, ms); r = F(insert_raw)(a, i); RES(m_ins(i, 1); m[i] = v = VAL(); F(data)(a)[i] = v); check(a, "insert_raw"); break;
    case 2: i = vp_pick_range("i", 0, ms); n = vp_pick_range("n", 0, C); r = F(insert_n_raw)(a, i, n); RES(m_ins(i, n); for (k = 0; k < n; k++) { m[i + k] = v = VAL(); F(data)(a)[i + k] = v; }); check(a, "insert_n_raw"); break;
    case 3: v = VAL(); r = F(append)(a, v); RES(m[ms++] = v); check(a, "append"); break;
    case 4: r = F(append_raw)(a); RES(m[ms++] = v = VAL(); F(data)(a)[ms - 1] = v); check(a, "append_raw"); break;
    case 5: n = vp_pick_range("n", 0, C); r = F(append_n)(a, n); RES(for (k = 0; k < n; k++) { m[ms++] = v = VAL(); F(data)(a)[ms - 1] = v; }); check(a, "append_n"); break;
    case 6: if (!ms) break; i = vp_pick_range("i", 0, ms - 1); v = VAL(); F(set)(a, i, v); m[i] = v; check(a, "set"); break;
    case 7: if (!ms) break; i = vp_pick_range("i", 0, ms - 1); F(remove)(a, i); m_del(i, 1); check(a, "remove"); break;
    case 8: i = vp_pick_range("i", 0, ms); n = vp_pick_range("n", 0, ms - i); F(remove_n)(a, i, n); m_del(i, n); check(a, "remove_n"); break;
    case 9: i = vp_pick_range("i", 0, ms); huge = vp_u64("huge"); vp_assume_x(huge > ms); F(remove_n)(a, i, huge); m_del(i, ms); check(a, "remove_n with a huge count removes to the end"); break;
    case 10: i = vp_pick_range("i", 0, ms); huge = vp_u64("huge"); vp_assume_x(huge > 2000 / sizeof(E_)); vp_alloc_max = 1000; r = F(insert_n_raw)(a, i, huge); vp_alloc_max = 4096; vp_assert(r == -1, "a count the heap refuses or size_t cannot hold is refused"); check(a, "refused insert_n_raw"); break;
    case 11: huge = vp_u64("huge"); vp_assume_x(huge > 2000 / sizeof(E_)); vp_alloc_max = 1000; r = F(append_n)(a, huge); vp_alloc_max = 4096; vp_assert(r == -1, "a count the heap refuses or size_t cannot hold is refused"); check(a, "refused append_n"); break;
    }
}
void harness(void)
{
    A a = CAT(ARRAY_, T, _INITIALIZER); size_t i, n = vp_pick_range("size", 0, S), sz = 77; int k; E_* d;
    if (vp_pick_range("init", 0, 1)) F(init)(&a);
    check(&a, "empty");
    for (i = 0; i < n; i++) { E_ v = VAL(); vp_assert(F(append)(&a, v) == 0, "append"); m[ms++] = v; }
    check(&a, "built"); vp_fail_mode = FAIL;
    for (k = 0; k < K; k++) op(&a);
    vp_fail_mode = 0;
    d = (E_*)F(acquire)(&a, vp_pick_range("want", 0, 1) ? &sz : NULL); vp_assert(sz == 77 || sz == ms, "acquire reports the count");
    for (i = 0; i < ms; i++) vp_assert_x((uint64_t)(uintptr_t)d[i] == (uint64_t)(uintptr_t)m[i], "acquired elements");
    ms = 0; check(&a, "empty after acquire"); vp_free(d);
    { E_ v = VAL(); vp_assert(F(append)(&a, v) == 0, "reusable"); m[ms++] = v; check(&a, "reusable"); }
    F(fini)(&a); vp_assert(vp_live == 0, "no leak");
    vp_witness("end");
}
