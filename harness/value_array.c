/* array values against an ideal sequence. KINDS 0: members are numbers (symbolic) or new; 1: members own memory */
#include "vp.h"
#include "data/value.h"
#define MAXM 300
static int FIRST;
static VALUE box[3]; static VALUE* v = &box[1];
static int id[MAXM], n; static int next_id = 1; static int32_t tag[MAXM * 2]; static uint8_t kind[MAXM * 2];   /* kind 0: new, 1: int32, 2: string, 3: array, 4: dict */
static const char LONG[] = "0123456789abcdefghij";
static void fill(VALUE* m, int k, int x)
{
    VALUE* c; kind[x] = (uint8_t)k;
    switch (k) {
        case 1: tag[x] = (int32_t)vp_u32("tag"); vp_assert(value_init_int32(m, tag[x]) == 0, "init"); break;
        case 2: vp_assume(value_init_string_(m, LONG, 20) == 0); break;
        case 3: vp_assume(value_init_array(m) == 0); c = value_array_append(m); vp_assume(c != NULL); vp_assume(value_init_string_(c, LONG, 20) == 0); c = value_array_append(m); vp_assume(c != NULL); break;
        case 4: vp_assume(value_init_dict_ex(m, NULL, VALUE_DICT_MAINTAINORDER) == 0); c = value_dict_add_(m, LONG, 15); vp_assume(c != NULL); vp_assume(value_init_string_(c, LONG, 20) == 0); vp_assume(value_dict_add_(m, "x", 1) != NULL); break;
    }
}
static void content(const VALUE* m, int x)
{
    switch (kind[x]) {
        case 0: vp_assert(value_type(m) == VALUE_NULL && value_is_new(m), "a new member is null and marked new"); break;
        case 1: vp_assert(value_type(m) == VALUE_INT32 && !value_is_new(m), "member type"); vp_assert(value_int32(m) == tag[x], "member content"); break;
        case 2: vp_assert(value_type(m) == VALUE_STRING && value_string_length(m) == 20, "member type"); vp_assert(vp_eq_bytes(value_string(m), LONG, 20), "member content"); break;
        case 3: vp_assert(value_type(m) == VALUE_ARRAY && value_array_size(m) == 2, "member type"); vp_assert(value_string_length(value_array_get(m, 0)) == 20 && value_is_new(value_array_get(m, 1)), "member content"); break;
        case 4: vp_assert(value_type(m) == VALUE_DICT && value_dict_size(m) == 2, "member type"); vp_assert(value_string_length(value_dict_get_(m, LONG, 15)) == 20 && value_is_new(value_dict_get_(m, "x", 1)), "member content"); break;
    }
}
static void check(void)
{
    int i; VALUE* all; uint64_t big;
    vp_assert(value_type(v) == VALUE_ARRAY, "still an array"); vp_assert(value_array_size(v) == (size_t)n, "size"); all = value_array_get_all(v);
    for (i = 0; i < n; i++) { VALUE* m = value_array_get(v, (size_t)i); vp_assert(m != NULL && m == all + i, "access by index and through the whole array agree"); vp_assert(vp_region_ok(m, sizeof(VALUE)), "member storage"); content(m, id[i]); }
    big = vp_u64("index"); vp_assume_x(big >= (uint64_t)n); vp_assert(value_array_get(v, big) == NULL, "access out of range");
}
static int new_kind(void) { return KINDS == 0 ? (int)vp_pick_range("content", 0, 1) : (next_id + FIRST) % 5; }
static void added(VALUE* m, int at)
{
    int i, x;
    for (i = n; i > at; i--) id[i] = id[i - 1];
    x = next_id++; id[at] = x; n++; kind[x] = 0;
    vp_assert(value_array_get(v, (size_t)at) == m, "the new member is at its index"); content(m, x);
    i = vp_fail_mode; vp_fail_mode = 0; fill(m, new_kind(), x); vp_fail_mode = i;
}
static void op(int o)
{
    long failed = vp_alloc_failed; VALUE* m; int at, c, r, i; uint64_t big;
    switch (o) {
        case 0: m = value_array_append(v); if (m == NULL) vp_assert(vp_alloc_failed > failed, "append fails only when the heap refuses"); else added(m, n); break;
        case 1: at = (int)vp_pick_range("at", 0, (uint64_t)n); m = value_array_insert(v, (size_t)at); if (m == NULL) vp_assert(vp_alloc_failed > failed, "insert fails only when the heap refuses"); else added(m, at); break;
        case 2: at = (int)vp_pick_range("at", 0, (uint64_t)n); c = (int)vp_pick_range("count", 0, (uint64_t)(n - at)); if (c == 1 && vp_pick_range("single", 0, 1)) r = value_array_remove(v, (size_t)at); else r = value_array_remove_range(v, (size_t)at, (size_t)c);
            vp_assert(r == 0, "removal inside the array succeeds"); for (i = at; i + c < n; i++) id[i] = id[i + c]; n -= c; break;
        case 3: at = (int)vp_pick_range("at", 0, 3); big = vp_u64("index"); 
            if (at == 0) { vp_assume_x(big > (uint64_t)n); vp_assert(value_array_insert(v, big) == NULL, "insert out of range"); }
            else if (at == 1) { vp_assume_x(big >= (uint64_t)n); vp_assert(value_array_remove(v, big) == -1, "remove out of range"); }
            else { uint64_t from = at == 2 ? vp_pick_range("from", 0, (uint64_t)n + 1) : vp_u64("from"); vp_assume_x((from > (uint64_t)n) | (big > (uint64_t)n - from)); vp_assert(value_array_remove_range(v, from, big) == -1, "range removal out of range"); }
            break;
        case 4: value_array_clean(v); n = 0; break;
    }
}
static const int bigs[] = { 8, 9, 14, 15, 16, 29, 30, 31, 61, 62, 63, 126 };
void harness(void)
{
    int k, i, s; long live; VALUE b, a;
    for (i = 0; i < 48; i++) ((uint8_t*)box)[i] = vp_u8("junk");
    if (KINDS) FIRST = (int)vp_pick_range("first kind", 0, 4);
    b = box[0]; a = box[2]; vp_fail_mode = 0; vp_alloc_max = 100000;
    vp_assert(value_init_array(v) == 0, "init"); check();
    s = BIGMAX ? bigs[vp_pick_range("size", 0, BIGMAX - 1)] : (int)vp_pick_range("size", 0, S);
    for (i = 0; i < s; i++) { VALUE* m = value_array_append(v); vp_assert(m != NULL, "append"); id[i] = next_id++; n++; fill(m, KINDS == 0 ? 1 : (next_id + FIRST) % 5, id[i]); }
#if BIGMAX
    /* down to a shrink threshold first */
    { int c = (int)vp_pick_range("drop", 0, 3); c = c == 0 ? 0 : c == 1 ? n - n / 4 : c == 2 ? n - n / 4 - 1 : n / 2; vp_assert(value_array_remove_range(v, 1, (size_t)(c > n - 1 ? n - 1 : c)) == 0, "removal"); if (c > n - 1) c = n - 1; for (i = 1; i + c < n; i++) id[i] = id[i + c]; n -= c; }
#endif
    for (k = 0; k < K; k++) {
        vp_fail_mode = FAIL; op((int)vp_pick_range("op", 0, 4)); vp_fail_mode = 0;
        check();
    }
    live = vp_live;
    if (KINDS == 0 || vp_pick_range("finish", 0, 1)) { value_fini(v); vp_assert(value_type(v) == VALUE_NULL && value_array_get(v, 0) == NULL, "null after finishing"); }
    else { value_array_clean(v); n = 0; check(); op(0); check(); value_fini(v); }
    vp_assert(vp_live == 0, "every block is released"); (void)live;
    vp_assert_same((uint8_t*)&b, (uint8_t*)&box[0], 0, 16, "memory before is untouched"); vp_assert_same((uint8_t*)&a, (uint8_t*)&box[2], 0, 16, "memory after is untouched");
    vp_witness("end");
}
