/* lookups and cursors on every valid tree */
#include "rb.h"
static RBTREE_CURSOR cur; static NODE stale;
/* whatever the cursor held: e.g. a path to nodes that are no longer in the tree */
static void junk(void) { size_t i; for (i = 0; i < sizeof cur.stack / sizeof *cur.stack; i++) cur.stack[i] = &stale.n; cur.n = (unsigned)vp_bits("junk", 3); }
/* the present node with the smallest key above k (dir 1) or the largest key below k (dir 0), as an address; 0 when none */
static uint64_t neighbour(long k, int dir)
{
    long p; int i; uint64_t r = 0;
    for (p = dir ? 2 * NP : 0; dir ? p > 0 : p < 2 * NP; p += dir ? -2 : 2)
        for (i = 1; i < NP; i++) if (ND(i).key == p && (dir ? p > k : p < k)) r = vp_ite(pr[i], (uintptr_t)&ND(i).n, r);
    return r;
}
static int index_of(RBTREE_NODE* r) { int i; for (i = 1; i < NP; i++) if (&ND(i).n == r) return i; return 0; }
static void steps(RBTREE_NODE* at, int n)
{
    while (n-- > 0) {
        int dir = (int)vp_pick_range("direction", 0, 1); long k = ND(index_of(at)).key; RBTREE_NODE* r;
        r = (RBTREE_NODE*)vp_pick(dir ? rbtree_next(&cur) : rbtree_prev(&cur));
        vp_assert_x((uintptr_t)r == neighbour(k, dir), "next and prev return the true neighbour or NULL");
        if (r != NULL) at = r;
        vp_assert((RBTREE_NODE*)vp_pick(rbtree_current(&cur)) == at, "the cursor is on the node last returned, and stays there at an end");
    }
}
void harness(void)
{
    int i; NODE key; RBTREE_NODE* r; uint64_t target = 0;
    build_tree();
    vp_assert_x((rbtree_is_empty(&tree) != 0) == (pr[1] == 0), "emptiness");
#if MODE == 0     /* lookups of any key, then steps */
    key.key = (long)vp_range("key", 0, 2 * NP); key.tag = -1; key.n.lc = NULL; key.n.r = NULL;
    for (i = 1; i < NP; i++) target = vp_ite(pr[i] & (ND(i).key == key.key), (uintptr_t)&ND(i).n, target);
    if (vp_pick_range("plain", 0, 1)) { vp_assert_x((uintptr_t)rbtree_lookup(&tree, &key.n, cmp_nodes) == target, "lookup finds exactly the equal node"); return; }
    junk();
    r = (RBTREE_NODE*)vp_pick(rbtree_lookup_ex(&tree, &key.n, cmp_nodes, &cur));
    vp_assert_x((uintptr_t)r == target, "extended lookup finds exactly the equal node");
    vp_assert((RBTREE_NODE*)vp_pick(rbtree_current(&cur)) == r, "current node after a lookup");
    if (r == NULL) { vp_assert(rbtree_next(&cur) == NULL && rbtree_prev(&cur) == NULL && rbtree_current(&cur) == NULL, "a cursor to nowhere stays there"); vp_witness("miss"); }
    else { steps(r, STEPS); vp_witness("hit"); }
#else             /* from the ends */
    int dir = (int)vp_pick_range("from", 0, 1), n = 0; long k = dir ? 0 : 2 * NP;
    junk();
    r = (RBTREE_NODE*)vp_pick(dir ? rbtree_head(&tree, &cur) : rbtree_tail(&tree, &cur));
    for (;;) {
        vp_assert_x((uintptr_t)r == neighbour(k, dir), "a walk visits every node in order");
        if (r == NULL) break;
        vp_assert((RBTREE_NODE*)vp_pick(rbtree_current(&cur)) == r, "current node during a walk");
        k = ND(index_of(r)).key; if (++n >= WALK) break;
        r = (RBTREE_NODE*)vp_pick(dir ? rbtree_next(&cur) : rbtree_prev(&cur));
    }
    if (n == 0) vp_assert(rbtree_next(&cur) == NULL && rbtree_prev(&cur) == NULL && rbtree_current(&cur) == NULL, "a cursor to nowhere stays there");
    if (n > 0) { r = (RBTREE_NODE*)vp_pick(rbtree_current(&cur)); vp_assert(r != NULL, "the cursor stays on the last node"); steps(r, STEPS); }
    vp_witness("miss"); vp_witness("hit");
#endif
}
