/* string values. MODE 0: every content, lengths 0..N and around boundaries; MODE 1 (CBMC): every length with array theory; MODE 2: unrepresentable sizes */
#include "vp.h"
#include <string.h>
#include "data/value.h"
static VALUE box[3];
#if MODE == 0
static const size_t big[] = { 126, 127, 128, 129, 255, 256, 257, 300, 1000, 2047, 2048, 16382, 16383, 16384, 16385 };
void harness(void)
{
    VALUE* v = &box[1]; size_t n, i; uint8_t* src; uint8_t copy[16400]; int z = 0, r; const char* s;
#if BIG
    n = big[vp_pick_range("length", 0, BIG - 1)]; src = vp_block(n);
    for (i = 0; i < n; i++) copy[i] = src[i] = (i < 3 || i + 3 >= n) ? vp_u8("byte") : (uint8_t)(i % 251 + 1);
#else
    n = vp_pick_range("length", 0, N); src = vp_filled("byte", n + 1, copy); src[n] = copy[n] = 0;
    if (n > 0 && vp_pick_range("c string", 0, 1)) { for (i = 0; i < n; i++) vp_assume_x(src[i] != 0); z = 1; }
    else if (n == 0) z = (int)vp_pick_range("null", 0, 3);          /* 2, 3: missing source */
#endif
    for (i = 0; i < 48; i++) ((uint8_t*)box)[i] = vp_u8("junk");
    { VALUE b = box[0], a = box[2];
    vp_fail_mode = FAIL; vp_alloc_max = 20000;
    r = z == 0 ? value_init_string_(v, (char*)src, n) : z == 1 ? value_init_string(v, (char*)src) : z == 2 ? value_init_string_(v, NULL, 0) : value_init_string(v, NULL);
    vp_fail_mode = 0;
    vp_assert((r == 0) == (vp_alloc_failed == 0), "failure is reported exactly when the heap refuses"); vp_assert(r == 0 || r == -1, "result");
    if (r == 0) {
        vp_assert(value_type(v) == VALUE_STRING, "type"); vp_assert(value_string_length(v) == n, "length");
        s = value_string(v); vp_assert(s != NULL && vp_region_ok(s, n + 1), "readable string"); vp_assert(s != (char*)src, "a copy is kept");
        vp_assert_same((const uint8_t*)s, copy, 0, n, "the bytes are stored exactly"); vp_assert(s[n] == 0, "zero terminator");
        vp_assert(value_is_compatible(v, VALUE_STRING) && !value_is_new(v), "compatible with strings only, not new");
    } else { vp_assert(value_type(v) == VALUE_NULL && value_string(v) == NULL && value_string_length(v) == 0, "a failed value is null"); }
    vp_assert_same(src, copy, 0, n, "the source is not modified");
    value_fini(v); vp_assert(vp_live == 0, "all memory is released"); vp_assert(value_type(v) == VALUE_NULL, "null after finishing"); value_fini(v);
    vp_assert_same((uint8_t*)&b, (uint8_t*)&box[0], 0, 16, "memory before is untouched"); vp_assert_same((uint8_t*)&a, (uint8_t*)&box[2], 0, 16, "memory after is untouched"); }
    vp_assert(value_init_string_(NULL, (char*)src, n) == -1, "missing value");
    vp_witness("end");
}
#elif MODE == 1
#ifdef VP_CBMC
void* malloc(size_t);
static uint8_t* source(size_t n) { uint8_t* p = malloc(n); return p; }
#else
static uint8_t* source(size_t n) { return vp_huge(n); }
#endif
void harness(void)
{
    VALUE* v = &box[1]; size_t n = vp_u64("length"), k = vp_u64("position"); uint8_t c = vp_u8("content"); uint8_t* src; const char* s;
    vp_assume(n >= (size_t)LO && n <= (size_t)HI && n > 0); vp_assume(k < n);
    vp_alloc_max = (size_t)1 << 62;
    src = source(n); src[k] = c;
    vp_assume(value_init_string_(v, (char*)src, n) == 0);
    vp_assert(value_string_length(v) == n, "length");
    s = value_string(v); vp_assert((uint8_t)s[k] == c, "content"); vp_assert(s[n] == 0, "zero terminator");
    vp_witness("end");
}
#else
void harness(void)
{
    VALUE* v = &box[1]; size_t n = vp_u64("length"); char* src;
    vp_assume(n > 100000); vp_alloc_max = 4096;
    src = vp_huge(n > 100000000 ? 64 : n);
    vp_assert(value_init_string_(v, src, n) == -1, "a length that cannot be stored is refused");
    vp_assert(value_type(v) == VALUE_NULL && vp_live == 0, "a failed value is null");
    vp_witness("end");
}
#endif
