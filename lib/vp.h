/* One harness language, three back ends: symx (symbolic execution of LLVM IR), CBMC, and native replay of a counterexample. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>

#if defined VP_SYMX
extern uint64_t vpi_sym(const char* name, int bits);
extern void vpi_assume(int c);
extern void vpi_assert(int c, const char* msg);
extern void vpi_witness(const char* name);
extern uint64_t vpi_ite(int c, uint64_t a, uint64_t b);
extern uint64_t vpi_concretize(uint64_t v);
extern void* vpi_alloc(size_t n, int zero);
extern void vpi_free(void* p);
extern int vpi_region_ok(const void* p, size_t n);
extern void* vpi_pick(const void* p);
extern void vpi_stop(void);
extern int vpi_is_sym(uint64_t v);
extern size_t vpi_objsize(const void* p);
extern void* vpi_block_base(const void* p);
extern int vpi_objkind(const void* p);      /* 1: a local variable */
extern int vpi_branch(int c);
extern void vpi_print(const char* n, uint64_t v);
#define vp_bits(name, n) vpi_sym(name, n)
#define vp_assume(c) vpi_assume((c) ? 1 : 0)
#define vp_assume_x(c) vpi_assume(c)          /* c is an expression without short-circuit operators: no path split */
#define vp_assert(c, msg) vpi_assert((c) ? 1 : 0, msg)
#define vp_assert_x(c, msg) vpi_assert((c), msg)
#define vp_witness(name) vpi_witness(name)
#define vp_ite(c, a, b) vpi_ite((c), (uint64_t)(a), (uint64_t)(b))
#define vp_concretize(v) vpi_concretize((uint64_t)(v))
#define vp_region_ok(p, n) vpi_region_ok(p, n)
#define vp_pick(p) vpi_pick(p)
#define vp_objsize(p) vpi_objsize(p)

#elif defined VP_CBMC
extern uint64_t nondet_vp_u64(void);
extern uint64_t vp_in;
static inline uint64_t vp_bits_(int n) { uint64_t v = nondet_vp_u64(); if (n < 64) __CPROVER_assume(v < (1ULL << n)); vp_in = v; return v; }
#define vp_bits(name, n) vp_bits_(n)
#define vp_assume(c) __CPROVER_assume(c)
#define vp_assume_x(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert(c, msg)
#define vp_assert_x(c, msg) __CPROVER_assert(c, msg)
#ifdef VP_WITNESS
#define vp_witness(name) __CPROVER_assert(0, "witness " name)
#else
#define vp_witness(name) ((void)0)
#endif
#define vp_ite(c, a, b) ((c) ? (uint64_t)(a) : (uint64_t)(b))
#define vp_concretize(v) ((uint64_t)(v))
#define vp_region_ok(p, n) ((n) == 0 || __CPROVER_r_ok(p, n))
#define vp_pick(p) ((void*)(p))
#define vp_objsize(p) __CPROVER_OBJECT_SIZE(p)

#else /* native replay */
extern uint64_t vp_next(const char* name, int bits);
extern void vp_assume_fail(void);
extern void vp_fail(const char* msg);
extern int vp_region_ok_(const void* p, size_t n);
extern size_t vp_objsize_(const void* p);
#define vp_bits(name, n) vp_next(name, n)
#define vp_assume(c) do { if (!(c)) vp_assume_fail(); } while (0)
#define vp_assume_x(c) vp_assume(c)
#define vp_assert(c, msg) do { if (!(c)) vp_fail(msg); } while (0)
#define vp_assert_x(c, msg) vp_assert(c, msg)
#define vp_witness(name) ((void)0)
#define vp_ite(c, a, b) ((c) ? (uint64_t)(a) : (uint64_t)(b))
#define vp_concretize(v) ((uint64_t)(v))
#define vp_region_ok(p, n) vp_region_ok_(p, n)
#define vp_pick(p) ((void*)(p))
#define vp_objsize(p) vp_objsize_(p)
#endif

static inline uint8_t vp_u8(const char* name) { (void)name; return (uint8_t)vp_bits(name, 8); }
static inline uint16_t vp_u16(const char* name) { (void)name; return (uint16_t)vp_bits(name, 16); }
static inline uint32_t vp_u32(const char* name) { (void)name; return (uint32_t)vp_bits(name, 32); }
static inline uint64_t vp_u64(const char* name) { (void)name; return vp_bits(name, 64); }
static inline int vp_bool(const char* name) { (void)name; return (int)vp_bits(name, 1); }
/* lo <= v <= hi, all values */
static inline uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi)
{
    uint64_t v; int b = 1; (void)name;
    while (b < 64 && (hi - lo) >> b) b++;
    v = vp_bits(name, b);
    vp_assume_x(v <= hi - lo);
    return lo + v;
}
static inline void vp_bytes(const char* name, void* p, size_t n) { size_t i; for (i = 0; i < n; i++) ((uint8_t*)p)[i] = vp_u8(name); }
/* a value the path is split on, one path per value */
static inline uint64_t vp_pick_range(const char* name, uint64_t lo, uint64_t hi) { return vp_concretize(vp_range(name, lo, hi)); }
/* non-short-circuit comparison of byte regions */
static inline int vp_eq_bytes(const void* a, const void* b, size_t n)
{
    int ok = 1; size_t i;
    for (i = 0; i < n; i++) ok &= (((const uint8_t*)a)[i] == ((const uint8_t*)b)[i]);
    return ok;
}

/* exact-size heap block for harness data (not counted in vp_live, never fails) */
void* vp_block(size_t n);
void vp_block_free(void* p);
/* block of n bytes whose content is arbitrary, where n may be huge: native replay maps it, the engines give a small readable block
 * (code that is right never reads it) */
void* vp_huge(size_t n);
/* exact-size block with arbitrary symbolic content; keep a copy of the content in *copy when copy != NULL */
static inline uint8_t* vp_filled(const char* name, size_t n, uint8_t* copy)
{
    size_t i; uint8_t* p = vp_block(n); (void)name;
    for (i = 0; i < n; i++) { p[i] = vp_u8(name); if (copy) copy[i] = p[i]; }
    return p;
}
/* all bytes of [from,to) of a and b are equal */
static inline int vp_same(const uint8_t* a, const uint8_t* b, size_t from, size_t to)
{
    int ok = 1; size_t i;
    for (i = from; i < to; i++) ok &= (a[i] == b[i]);
    return ok;
}

/* one small query per byte; cheaper than one big conjunction */
#define vp_assert_same(a, b, from, to, msg) do { const uint8_t *a_ = (const uint8_t*)(a), *b_ = (const uint8_t*)(b); size_t i_, e_ = (to); for (i_ = (from); i_ < e_; i_++) vp_assert_x(a_[i_] == b_[i_], msg); } while (0)

/* instrumented allocator used by the code under test */
extern int vp_fail_mode;          /* 0 never fails, 1 every call may fail, 2 call number vp_fail_at fails */
extern long vp_fail_at;
extern long vp_alloc_calls, vp_alloc_failed, vp_live;
extern size_t vp_alloc_max;       /* larger requests fail */
extern size_t vp_last_request;
void* vp_malloc(size_t n);
void* vp_calloc(size_t n, size_t m);
void* vp_realloc(void* p, size_t n);
void vp_free(void* p);
char* vp_strdup(const char* s);

void harness(void);
#endif
