#include "rb.h"
void harness(void)
{
    int i, r, k; NODE* x = &nd[NP]; uint8_t was;
    build_tree();
    x->key = (long)vp_range("key", 0, 2 * NP); x->tag = NP; x->n.lc = (RBTREE_NODE*)0x10; x->n.r = (RBTREE_NODE*)0x20;
    was = 0; for (i = 1; i < NP; i++) was |= pr[i] & (nd[i].key == x->key);
    r = rbtree_insert(&tree, &x->n, cmp_nodes);
    vp_assert_x((r == 0) == (was == 0), "insert succeeds exactly when no equal node is present");
    vp_assert_x((r == 0) | (r == -1), "insert returns 0 or -1");
    check_tree();
    for (i = 1; i < NP; i++) vp_assert_x(seen[i] == pr[i], "insert keeps every other node exactly once");
    vp_assert_x(seen[NP] == (r == 0), "the new node is in the tree exactly when insert succeeded");
    vp_assert_x((r != -1) | ((x->n.lc == (RBTREE_NODE*)0x10) & (x->n.r == (RBTREE_NODE*)0x20)), "a refused node is left alone");
    vp_witness("insert"); (void)k;
}
