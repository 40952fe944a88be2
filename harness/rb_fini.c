/* teardown: every returned node is freed at once */
#define SEP
#include "rb.h"
void harness(void)
{
    int i, n = 0, total = 0; RBTREE_NODE* r; RBTREE_CURSOR c;
    build_tree();
    for (i = 1; i < NP; i++) total += pr[i];
    for (;;) {
        NODE* x;
        r = (RBTREE_NODE*)vp_pick(rbtree_fini_step(&tree));
        if (r == NULL) break;
        for (i = 1; i < NP; i++) if (ndp[i] != NULL && &ndp[i]->n == r) break;
        vp_assert(i < NP, "a node is returned once only"); vp_assert_x(pr[i] == 1, "only stored nodes are returned");
        x = ndp[i]; ndp[i] = NULL; vp_block_free(x); n++;
    }
    vp_assert_x(n == total, "every node is returned");
    vp_assert(rbtree_is_empty(&tree), "empty after the teardown"); vp_assert(rbtree_fini_step(&tree) == NULL, "nothing is left"); vp_assert(rbtree_head(&tree, &c) == NULL, "no head");
    ndp[NP]->key = 5; ndp[NP]->n.lc = (RBTREE_NODE*)0x10; ndp[NP]->n.r = (RBTREE_NODE*)0x10;
    vp_assert(rbtree_insert(&tree, &ndp[NP]->n, cmp_nodes) == 0, "usable again"); vp_assert(rbtree_head(&tree, &c) == &ndp[NP]->n, "usable again"); vp_assert(rbtree_next(&c) == NULL, "usable again");
    vp_witness("end");
}
