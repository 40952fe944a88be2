/* one insertion into, or removal from, an arbitrary valid dictionary tree of height <= H, built directly in the implementation's own node layout */
#include "vp.h"
#include "data/value.c"
#define NP (1 << H)
#define NODESIZE (ORDER ? sizeof(RBTREE) : OFFSETOF(RBTREE, order_prev))
static RBTREE* nd[NP + 1]; static uint8_t pr[2 * NP], red[NP], kb[NP]; static int BH;
static VALUE dict; static DICT* d; static long calls; static uint32_t cneg, cpos; static int cmpk;
static int inorder_pos(int i) { int e = 0, j = i, idx; while (j > 1) { j >>= 1; e++; } idx = i - (1 << e); return ((2 * idx + 1) << (H - 1 - e)); }
static int cmp(const char* a, size_t la, const char* b, size_t lb)
{
    uint8_t x = *(const uint8_t*)a, y = *(const uint8_t*)b; calls++; vp_assert(la == 1 && lb == 1, "key lengths");
    return (int)vp_ite(x > y, cneg, vp_ite(x < y, cpos, 0));      /* descending order */
}
static void build(void)
{
    int i; uint8_t bh[2 * NP]; int ok = 1; uint64_t cnt = 0;
    for (i = 1; i < NP; i++) { pr[i] = (uint8_t)vp_bits("present", 1); red[i] = (uint8_t)vp_bits("red", 1); cnt += pr[i]; }
    for (i = NP; i < 2 * NP; i++) { pr[i] = 0; bh[i] = 0; }
    for (i = NP - 1; i >= 1; i--) {
        int l = 2 * i, r = 2 * i + 1; uint8_t lr = l < NP ? (pr[l] & red[l]) : 0, rr = r < NP ? (pr[r] & red[r]) : 0;
        ok &= (pr[i] | (1 ^ (pr[l] | pr[r]))); ok &= (1 ^ (red[i] & (1 ^ pr[i]))); ok &= (1 ^ (red[i] & (lr | rr))); ok &= (bh[l] == bh[r]) | (1 ^ pr[i]);
        bh[i] = (uint8_t)vp_ite(pr[i], bh[l] + (red[i] ^ 1), 0);
    }
    ok &= 1 ^ red[1]; vp_assume_x(ok);
    BH = (int)vp_concretize(bh[1]);
    vp_assert(value_init_dict_ex(&dict, cmpk ? cmp : NULL, ORDER ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init"); d = value_dict_payload(&dict);
    for (i = 1; i < NP; i++) {
        char c; kb[i] = (uint8_t)(2 * (cmpk ? NP - inorder_pos(i) : inorder_pos(i))); c = (char)kb[i];
        nd[i] = malloc(NODESIZE); memset(nd[i], 0, NODESIZE);
        vp_assert(value_init_string_(&nd[i]->key, &c, 1) == 0, "init"); value_init_int32(&nd[i]->value, i);
        { RBTREE b, *n = nd[i]; uint8_t *x = (uint8_t*)n, *y = (uint8_t*)&b; size_t j; /* whatever MAKE_RED and MAKE_BLACK change */
          n->left = n->right = NULL; MAKE_RED(n); for (j = 0; j < NODESIZE; j++) y[j] = x[j]; MAKE_BLACK(n);
          for (j = 0; j < NODESIZE; j++) if (!ORDER || j < OFFSETOF(RBTREE, order_prev)) x[j] = (uint8_t)vp_ite(red[i], y[j], x[j]); }
    }
    for (i = 1; i < NP; i++) {
        int l = 2 * i, r = 2 * i + 1;
        nd[i]->left = (RBTREE*)(uintptr_t)(l < NP ? vp_ite(pr[l], (uintptr_t)nd[l], 0) : 0);
        nd[i]->right = (RBTREE*)(uintptr_t)(r < NP ? vp_ite(pr[r], (uintptr_t)nd[r], 0) : 0);
    }
    d->root = (RBTREE*)(uintptr_t)vp_ite(pr[1], (uintptr_t)nd[1], 0); d->size = cnt;
    if (ORDER) { /* insertion order = numbering of the present nodes */
        uintptr_t last = 0;
        for (i = 1; i < NP; i++) { nd[i]->order_prev = (RBTREE*)last; last = vp_ite(pr[i], (uintptr_t)nd[i], last); }
        d->order_tail = (RBTREE*)last; last = 0;
        for (i = NP - 1; i >= 1; i--) { nd[i]->order_next = (RBTREE*)last; last = vp_ite(pr[i], (uintptr_t)nd[i], last); }
        d->order_head = (RBTREE*)last;
    }
}
static uint8_t seen[NP + 1];
static uint64_t check_sub(uintptr_t p, int parent_red, int lo, int hi, int depth)
{
    RBTREE* x; int isred, k, e = p != 0, t; uint64_t l, r;
    x = (RBTREE*)vp_pick((void*)p); if (x == NULL) return 0;
    vp_assert_x((1 ^ e) | (depth > 0), "tree deeper than 2*log2(n+1)"); if (depth == 0) return 0;
    isred = !!IS_RED(x); k = *(const uint8_t*)value_string(&x->key);
    if (cmpk) k = 2 * NP - k;
    vp_assert_x((1 ^ e) | (1 ^ (isred & parent_red)), "a red node has a red child (or the root is red)");
    vp_assert_x((1 ^ e) | ((k > lo) & (k < hi)), "keys are in comparator order");
    t = value_is_new(&x->value) ? NP : value_int32(&x->value); seen[t] |= (uint8_t)e;
    l = check_sub((uintptr_t)x->left, isred, lo, k, depth - 1); r = check_sub((uintptr_t)x->right, isred, k, hi, depth - 1);
    vp_assert_x((1 ^ e) | (l == r), "every path has the same number of black nodes");
    return vp_ite(e, l + (isred ^ 1), 0);
}
void harness(void)
{
    int i, r; uint8_t k; uint64_t cnt, target = 0, tpos = 0; VALUE* m;
    vp_alloc_max = 100000; cmpk = (int)vp_pick_range("comparator", 0, CMPHI);
    cneg = (uint32_t)vp_bits("negative", 31) | 0x80000000u; cpos = (uint32_t)vp_bits("positive", 31); vp_assume_x(cpos > 0);
    build(); cnt = d->size;
    k = (uint8_t)vp_range("key", 0, 2 * NP);
    for (i = 1; i < NP; i++) { int is = pr[i] & (kb[i] == k); target = vp_ite(is, (uintptr_t)&nd[i]->value, target); tpos = vp_ite(is, i, tpos); }
    if (OP == 0) {
        m = value_dict_get_or_add_(&dict, (char*)&k, 1); vp_assert(m != NULL, "get-or-add");
        vp_assert_x((target == 0) | ((uintptr_t)m == target), "a present key gives its value"); 
        if (cmpk) vp_assert(calls <= 2 * BH, "at most 2*log2(n+1) comparisons");
    } else {
        r = value_dict_remove_(&dict, (char*)&k, 1); vp_assert_x((r == 0) == (target != 0), "removal succeeds exactly for present keys"); vp_assert_x((r == 0) | (r == -1), "result");
        if (cmpk) vp_assert(calls <= 2 * BH, "at most 2*log2(n+1) comparisons");
    }
    check_sub((uintptr_t)d->root, 1, -1000, 1000, H + 2);
    if (OP == 0) { for (i = 1; i < NP; i++) vp_assert_x(seen[i] == pr[i], "every other entry stays"); vp_assert_x(seen[NP] == (target == 0), "the new entry is there"); vp_assert_x(d->size == cnt + (target == 0), "size"); }
    else { for (i = 1; i < NP; i++) vp_assert_x(seen[i] == (pr[i] & (uint8_t)(tpos != (uint64_t)i)), "every other entry stays, the removed one is gone"); vp_assert_x(d->size == cnt - (target != 0), "size"); }
#if ORDER
    { uintptr_t last = 0, nu = 0; RBTREE* q;
      /* after OP: the order links of every remaining entry skip the removed one */
      for (i = 1; i < NP; i++) if (OP == 0 || i != (int)vp_concretize(tpos)) {
          vp_assert_x((1 ^ pr[i]) | ((uintptr_t)nd[i]->order_prev == last), "insertion order (backwards)"); last = vp_ite(pr[i], (uintptr_t)nd[i], last); }
      if (OP == 0 && vp_concretize(target == 0)) { q = (RBTREE*)vp_pick(d->order_tail); vp_assert((uintptr_t)q == (uintptr_t)m - OFFSETOF(RBTREE, value), "the new entry is last"); vp_assert_x((uintptr_t)q->order_prev == last, "the new entry follows the old last one"); vp_assert(q->order_next == NULL, "the new entry ends the order"); nu = (uintptr_t)q; last = nu; }
      vp_assert_x((uintptr_t)d->order_tail == last, "order tail"); last = nu;
      for (i = NP - 1; i >= 1; i--) if (OP == 0 || i != (int)vp_concretize(tpos)) {
          vp_assert_x((1 ^ pr[i]) | ((uintptr_t)nd[i]->order_next == last), "insertion order (forwards)"); last = vp_ite(pr[i], (uintptr_t)nd[i], last); }
      vp_assert_x((uintptr_t)d->order_head == last, "order head"); }
#endif
    vp_witness("end");
}
