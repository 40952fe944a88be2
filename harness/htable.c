/* hash table against an ideal set. Nodes have symbolic keys and symbolic 32-bit hashes; equal keys have equal hashes and nothing else is assumed. */
#include "vp.h"
#include "data/htable.h"
#ifndef FILL
#define FILL 0
#endif
#define MAXN (N + FILL)
typedef struct { uint64_t pre; HTABLE_NODE node; uint32_t key, hash; } S;
static S* it[MAXN]; static uint8_t in[MAXN]; static int n_in; static int seen[MAXN]; static HTABLE t; static long n_dtor;
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, S, node)->key != HTABLE_DATA(b, S, node)->key; }
static uint32_t hashf(const HTABLE_NODE* a) { return HTABLE_DATA(a, S, node)->hash; }
static void dtor(HTABLE_NODE* a) { S* s = HTABLE_DATA(a, S, node); int i; for (i = 0; i < MAXN; i++) if (it[i] == s) seen[i]++; n_dtor++; s->node.next = NULL; s->pre = 1; }
/* the member equal to item x, or -1 */
static int equal(int x) { int i; for (i = 0; i < MAXN; i++) if (in[i] && (i == x || it[i]->key == it[x]->key)) return i; return -1; }
/* Hash values are 472 * q + residue (472 = 8 * 59 is a multiple of the four smallest plane sizes): every multiple q up to 2^23 is covered by the solver,
 * the residue decides the slots and is one of a few relevant values. */
static uint32_t hash_any(void)
{
    static const uint16_t res[] = { 0, 59, 118, 1, 177, 127, 471, 236 };
#ifdef QS   /* a few concrete multiples, for code which computes the slot in a way the solver finds hard */
    static const uint32_t qs[] = { 0, 8388607, 5592405, 1 };
    return 472u * qs[vp_pick_range("q", 0, QS - 1)] + res[vp_pick_range("residue", 0, RES - 1)];
#endif
    return 472u * (uint32_t)vp_bits("hash", 23) + res[vp_pick_range("residue", 0, RES - 1)];
}
static void lookup(int x)
{
    int e = equal(x); S* probe = vp_block(sizeof(S)); HTABLE_NODE* r; probe->key = it[x]->key; probe->hash = it[x]->hash;
    r = htable_lookup(&t, &probe->node, cmp, hashf);
    vp_assert(r == (e < 0 ? NULL : &it[e]->node), "lookup finds exactly the stored equal node");
}
static void insert(int x, int unsafe)
{
    int e = equal(x), r; long failed = vp_alloc_failed;
    if (in[x]) return;              /* the node object itself is in the table */
    if (unsafe && e >= 0) return;
    r = unsafe ? htable_insert_unsafe(&t, &it[x]->node, cmp, hashf) : htable_insert(&t, &it[x]->node, cmp, hashf);
    if (e >= 0) vp_assert(r == -1, "inserting an equal key fails");
    else if (vp_alloc_failed == failed) vp_assert(r == 0, "inserting a new key succeeds");
    else vp_assert(r == 0 || r == -1, "insert result");
    if (r == 0) { in[x] = 1; n_in++; }
}
static void removex(int x)
{
    int e = equal(x); HTABLE_NODE* r; S* probe = vp_block(sizeof(S)); probe->key = it[x]->key; probe->hash = it[x]->hash;
    r = htable_remove(&t, &probe->node, cmp, hashf);
    vp_assert(r == (e < 0 ? NULL : &it[e]->node), "remove returns exactly the stored equal node");
    if (e >= 0) { in[e] = 0; n_in--; r->next = (HTABLE_NODE*)it[0]; }       /* a removed node belongs to the caller */
}
static void check_all(void) { int i; for (i = 0; i < MAXN; i++) lookup(i); vp_assert((htable_is_empty(&t) != 0) == (n_in == 0), "emptiness"); }
static void finish(int use)
{
    int i, had = n_in; uint8_t was[MAXN];
    for (i = 0; i < MAXN; i++) was[i] = in[i];
    n_dtor = 0; for (i = 0; i < MAXN; i++) seen[i] = 0;
    htable_fini(&t, use ? dtor : NULL);
    if (use) { for (i = 0; i < MAXN; i++) vp_assert(seen[i] == was[i], "the destructor is called exactly once for each stored node"); vp_assert(n_dtor == had, "number of destructor calls"); }
    vp_assert(vp_live == 0, "all internal memory is released"); vp_assert(htable_is_empty(&t), "empty after finishing");
    for (i = 0; i < MAXN; i++) in[i] = 0;
    n_in = 0;
}
#if FILL == 0
void harness(void)
{
    int i, c = 0, k, used = 0, unsafe = (int)vp_pick_range("variant", 0, 1), up;
    uint32_t key = vp_u32("key"), h[N];
    /* every partition of the nodes into classes of equal keys; only equality of keys matters to the table */
    for (i = 0; i < N; i++) { int cl = (int)vp_pick_range("key class", 0, c); if (cl == c) h[c++] = hash_any(); it[i] = vp_block(sizeof(S)); it[i]->key = key + (uint32_t)cl; it[i]->hash = h[cl]; }
    if (unsafe) htable_init(&t);
    vp_fail_mode = FAIL;
    for (k = 0; k < K; k++) {
        int x; up = used < N ? used : N - 1;
        x = (int)vp_pick_range("item", 0, up); if (x == used) used++;
        if (in[x] || vp_pick_range("op", 0, 1)) removex(x); else insert(x, unsafe);
        vp_assert((htable_is_empty(&t) != 0) == (n_in == 0), "emptiness");
    }
    check_all();
    vp_fail_mode = 0;
#ifdef FINI
    finish((int)vp_pick_range("dtor", 0, 1)); lookup(0); insert(0, 0); lookup(0); removex(0); vp_assert(htable_is_empty(&t), "empty again"); finish(1);
#endif
    vp_witness("end");
}
#else
/* growth and shrinking: FILL fillers with given hashes, N nodes with symbolic hashes put in at any time */
static uint32_t filler_hash(int i)
{
    switch (PATTERN) { case 0: return (uint32_t)i; case 1: return (uint32_t)(i % 5) * 59u + (uint32_t)(i / 40); case 2: return 0x9e3779b9u * (uint32_t)i; default: return 59u * (uint32_t)i; }
}
static void place(int when) { int i; for (i = 0; i < N; i++) if (it[i]->pre == (uint64_t)when) insert(i, 0); }
static void check_some(void) { int i, st = FILL > 100 ? 7 : 3; for (i = 0; i < MAXN; i += i < N + 2 || i >= MAXN - 2 ? 1 : st) if (i < MAXN) lookup(i); lookup(MAXN - 1); vp_assert((htable_is_empty(&t) != 0) == (n_in == 0), "emptiness"); }
static const uint16_t left[] = { 0, 12, 30, 43, 60, 102, 200 };
void harness(void)
{
    int i, stage, down;
    for (i = 0; i < N; i++) { it[i] = vp_block(sizeof(S)); it[i]->key = 1000000u + (uint32_t)i; it[i]->hash = hash_any(); it[i]->pre = vp_pick_range("when", 0, 2); }  /* before, during, after filling */
    for (i = N; i < MAXN; i++) { it[i] = vp_block(sizeof(S)); it[i]->key = (uint32_t)i; it[i]->hash = filler_hash(i - N); }
    htable_init(&t); vp_fail_mode = 0;
    if (FAIL == 2) vp_fail_at = (long)vp_pick_range("failing call", 2, 7);
    place(0);
    for (i = N; i < MAXN; i++) {
        if (i == N + FILL / 2) place(1);
        if (i == N + 57) vp_fail_mode = FAIL;      /* early failures are covered by the histories */
        insert(i, i & 1);
    }
    place(2); vp_fail_mode = 0;
    check_some();
    down = (int)vp_pick_range("order", 0, 1); stage = left[vp_pick_range("left", 0, STAGES - 1)];
    for (i = 0; i < FILL && n_in > stage + N; i++) removex(down ? MAXN - 1 - i : N + i);
    check_some();
#ifdef FINI
    finish(1); insert(N, 0); insert(0, 0); finish(1);
#else
    if (stage && vp_pick_range("refill", 0, 1)) { for (i = N; i < MAXN; i++) if (!in[i]) insert(i, 0); check_some(); }
    for (i = 0; i < N; i++) { removex(i); lookup(i); }
    for (i = 0; i < MAXN; i++) removex(i);
    vp_assert(htable_is_empty(&t), "empty at the end");
    insert(N, 0); lookup(N); lookup(N + 1); finish(1);
#endif
    vp_witness("end");
}
#endif
