#include "rb.h"
void harness(void)
{
    int i; NODE key; RBTREE_NODE* r; uint64_t target = 0; 
    build_tree();
    key.key = (long)vp_range("key", 0, 2 * NP); key.tag = -1; key.n.lc = NULL; key.n.r = NULL;
    for (i = 1; i < NP; i++) target = vp_ite(pr[i] & (nd[i].key == key.key), (uintptr_t)&nd[i].n, target);
    r = rbtree_remove(&tree, &key.n, cmp_nodes);
    vp_assert_x((uintptr_t)r == target, "remove returns the equal node, or NULL when there is none");
    check_tree();
    for (i = 1; i < NP; i++) vp_assert_x(seen[i] == (pr[i] & ((uintptr_t)&nd[i].n != target)), "remove takes out exactly the equal node");
    vp_assert_x(seen[NP] == 0, "no foreign node");
    vp_witness("remove");
}
