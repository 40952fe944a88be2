/* any 64-bit count: an unrepresentable or refused total is reported and changes nothing */
#include "vp.h"
#include "vp_alloc.h"
#include "data/buffer.h"
void harness(void)
{
    size_t s = vp_pick_range("size", 0, 3), i, off = 0; uint8_t m[4]; BUFFER b = BUFFER_INITIALIZER; STACK st = STACK_INITIALIZER; uint8_t one = vp_u8("one"); uint64_t n; int ok = 0; void* p = NULL; uint8_t* q; const BUFFER* v = &b;
    int kind = (int)vp_pick_range("kind", 0, 7), stack = kind >= 5;
    if (s) { if (stack) p = stack_push_raw(&st, s); else p = buffer_append_raw(&b, s); vp_assert(p != NULL, "append"); for (i = 0; i < s; i++) m[i] = ((uint8_t*)p)[i] = vp_u8("m"); }
    n = vp_u64("n"); vp_assume_x(n > 1100);                /* more than the heap below can give */
    vp_alloc_max = 1000;
    switch (kind) {
    case 0: ok = buffer_reserve(&b, n) == 0; break;
    case 1: off = vp_pick_range("off", 0, s); ok = buffer_insert_raw(&b, off, n) != NULL; break;
    case 2: off = vp_pick_range("off", 0, s); ok = buffer_insert(&b, off, vp_huge(n), n) == 0; break;
    case 3: ok = buffer_append_raw(&b, n) != NULL; break;
    case 4: ok = buffer_append(&b, vp_huge(n), n) == 0; break;
    case 5: ok = stack_reserve(&st, n) == 0; break;
    case 6: ok = stack_push_raw(&st, n) != NULL; break;
    case 7: ok = stack_push(&st, vp_huge(n), n) == 0; break;
    }
    vp_assert(!ok, "a request the heap refuses or size_t cannot hold fails");
    vp_assert(stack ? (stack_size(&st) == s && (stack_is_empty(&st) != 0) == (s == 0)) : (buffer_size(&b) == s), "size unchanged");
    q = stack ? stack_data(&st) : buffer_data(&b);
    vp_assert_same(q, m, 0, s, "content unchanged");
    vp_assert(stack ? stack_push_uint8(&st, one) == 0 : buffer_append(&b, &one, 1) == 0, "still usable");
    q = stack ? stack_data(&st) : buffer_data(&b);
    vp_assert_same(q, m, 0, s, "content after reuse"); vp_assert_x(q[s] == one, "content after reuse");
    buffer_fini(&b); stack_fini(&st); vp_assert(vp_live == 0, "no leak"); (void)v;
    vp_witness("end");
}
