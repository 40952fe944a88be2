/* STACK against a list of (type, value) records */
#include "vp.h"
#include "vp_alloc.h"
#include "data/buffer.h"
#define MAXD 200
static struct rec { uint8_t t, n; uint64_t v; uint8_t raw[12]; } m[MAXD]; static int d; static size_t bytes;
static const uint8_t widths[] = { 1, 1, 2, 2, 4, 4, 8, 8, 8 };
static int push(STACK* s, int t)
{
    struct rec* r = &m[d]; int ok, i; r->t = (uint8_t)t; r->n = t < 9 ? widths[t] : 0;
    if (t < 9) r->v = vp_bits("value", 8 * widths[t]);
    switch (t) {
    case 0: ok = stack_push_int8(s, (int8_t)r->v); break;
    case 1: ok = stack_push_uint8(s, (uint8_t)r->v); break;
    case 2: ok = stack_push_int16(s, (int16_t)r->v); break;
    case 3: ok = stack_push_uint16(s, (uint16_t)r->v); break;
    case 4: ok = stack_push_int32(s, (int32_t)r->v); break;
    case 5: ok = stack_push_uint32(s, (uint32_t)r->v); break;
    case 6: ok = stack_push_int64(s, (int64_t)r->v); break;
    case 7: ok = stack_push_uint64(s, r->v); break;
    case 8: ok = stack_push_ptr(s, (void*)(uintptr_t)r->v); break;
    default: r->n = (uint8_t)vp_pick_range("n", 1, RAW); for (i = 0; i < r->n; i++) r->raw[i] = vp_u8("raw");
        if (t == 9) { uint8_t* c = vp_block(r->n); memcpy(c, r->raw, r->n); ok = stack_push(s, c, r->n); }
        else { void* p = stack_push_raw(s, r->n); ok = p ? 0 : -1; if (p) memcpy(p, r->raw, r->n); }
    }
    if (ok == 0) { d++; bytes += r->n; }
    return ok;
}
static uint64_t low(uint64_t v, int n) { return n == 8 ? v : v & ((1ull << (8 * n)) - 1); }
static uint64_t peek(STACK* s, int t)
{
    switch (t) {
    case 0: return (uint64_t)(int64_t)stack_peek_int8(s); case 1: return stack_peek_uint8(s); case 2: return (uint64_t)(int64_t)stack_peek_int16(s); case 3: return stack_peek_uint16(s);
    case 4: return (uint64_t)(int64_t)stack_peek_int32(s); case 5: return stack_peek_uint32(s); case 6: return (uint64_t)stack_peek_int64(s); case 7: return stack_peek_uint64(s); default: return (uint64_t)(uintptr_t)stack_peek_ptr(s);
    }
}
static uint64_t pop(STACK* s, int t)
{
    switch (t) {
    case 0: return (uint64_t)(int64_t)stack_pop_int8(s); case 1: return stack_pop_uint8(s); case 2: return (uint64_t)(int64_t)stack_pop_int16(s); case 3: return stack_pop_uint16(s);
    case 4: return (uint64_t)(int64_t)stack_pop_int32(s); case 5: return stack_pop_uint32(s); case 6: return (uint64_t)stack_pop_int64(s); case 7: return stack_pop_uint64(s); default: return (uint64_t)(uintptr_t)stack_pop_ptr(s);
    }
}
static uint64_t want(const struct rec* r) { switch (r->t) { case 0: return (uint64_t)(int64_t)(int8_t)r->v; case 2: return (uint64_t)(int64_t)(int16_t)r->v; case 4: return (uint64_t)(int64_t)(int32_t)r->v; } return r->v; }
static void size_ok(STACK* s) { vp_assert(stack_size(s) == bytes, "size is the number of bytes pushed and not popped"); vp_assert((stack_is_empty(s) != 0) == (bytes == 0), "emptiness"); }
static void popcheck(STACK* s, int raw)
{
    struct rec* r = &m[d - 1]; uint8_t out[16]; const uint8_t* p; int i;
    if (r->t < 9) {
        vp_assert_x(peek(s, r->t) == want(r), "peek returns the pushed value"); size_ok(s);
        vp_assert_x(pop(s, r->t) == want(r), "pop returns the pushed value");
    } else {
        for (i = 0; i < 16; i++) out[i] = 0x5a;
        stack_peek(s, out, r->n); vp_assert_same(out, r->raw, 0, r->n, "peek returns the pushed bytes"); vp_assert(out[r->n] == 0x5a, "peek writes just the bytes"); size_ok(s);
        p = stack_peek_raw(s, r->n); vp_assert_same(p, r->raw, 0, r->n, "raw peek shows the pushed bytes"); size_ok(s);
        for (i = 0; i < 16; i++) out[i] = 0x5a;
        if (raw) { p = stack_pop_raw(s, r->n); vp_assert(vp_region_ok(p, r->n), "raw pop: readable"); vp_assert_same(p, r->raw, 0, r->n, "raw pop shows the pushed bytes"); }
        else { stack_pop(s, out, r->n); vp_assert_same(out, r->raw, 0, r->n, "pop returns the pushed bytes"); vp_assert(out[r->n] == 0x5a, "pop writes just the bytes"); }
    }
    d--; bytes -= r->n; size_ok(s);
}
static void all(STACK* s)
{
    size_t off = 0; int i, k; const uint8_t* p = stack_const_data(s);
    vp_assert(p == stack_data(s), "data accessors agree");
    for (i = 0; i < d; i++) { for (k = 0; k < m[i].n; k++) vp_assert_x(p[off + k] == (m[i].t < 9 ? (uint8_t)(m[i].v >> (8 * k)) : m[i].raw[k]), "remaining bytes unchanged"); off += m[i].n; }
}
void harness(void)
{
    STACK s = STACK_INITIALIZER; int k; long failed;
    if (vp_pick_range("init", 0, 1)) stack_init(&s);
    size_ok(&s); vp_fail_mode = FAIL;
#ifdef DEEP
    /* a long history through every growth and shrink threshold: push DEEP, pop most, push again, pop all */
    { int t0 = (int)vp_pick_range("type", 0, 9), raw = (int)vp_pick_range("raw", 0, 1);
      for (k = 0; k < DEEP; k++) vp_assert(push(&s, t0 < 9 ? (t0 + k % 2) % 9 : k % 9) == 0, "push");
      all(&s); while (d > DEEP / 5) popcheck(&s, raw);
      all(&s); while (d < DEEP / 3) vp_assert(push(&s, 9 - d % 9 - 1) == 0, "push");
      all(&s); while (d) popcheck(&s, raw); }
#else
    for (k = 0; k < K; k++) {
        int o = (int)vp_pick_range("op", 0, 12);
        if (o <= 10) { failed = vp_alloc_failed; vp_assert((push(&s, o) != 0) == (vp_alloc_failed > failed), "push fails exactly when an allocation failed"); size_ok(&s); all(&s); }
        else if (d) popcheck(&s, o == 11);
    }
    all(&s);
    switch ((int)vp_pick_range("end", 0, 2)) {
    case 0: while (d) popcheck(&s, 0); break;
    case 1: stack_clear(&s); d = 0; bytes = 0; size_ok(&s); vp_fail_mode = 0; vp_assert(push(&s, 5) == 0, "reusable"); popcheck(&s, 0); break;
    case 2: { STACK o; size_t n = 99; void* p; stack_init(&o); stack_swap(&s, &o); vp_assert(stack_size(&s) == 0 && stack_is_empty(&s), "swapped"); all(&o); p = stack_acquire(&o, &n); vp_assert(n == bytes && stack_is_empty(&o), "acquire"); s.buf.data = p; s.buf.size = n; all(&s); s.buf.data = NULL; vp_free(p); break; }
    }
#endif
    stack_fini(&s); vp_assert(vp_live == 0, "no leak");
    vp_witness("end");
}
