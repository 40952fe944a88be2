/* very tall valid trees: lookups, cursors, insertion and removal at the bottom */
#include "vp.h"
#include "data/rbtree.h"
typedef struct { RBTREE_NODE n; long key; int tag; } NODE;
typedef NODE* T;
static RBTREE tree;
static T t_left(T x) { return (T)((uintptr_t)x->n.lc & ~(uintptr_t)1); }
static T t_right(T x) { return (T)x->n.r; }
static int t_red(T x) { return (int)((uintptr_t)x->n.lc & 1); }
static long t_key(T x) { return x->key; }
static int t_tag(T x) { return x->tag; }
static void t_setl(T x, T y) { x->n.lc = (RBTREE_NODE*)((uintptr_t)y | (uintptr_t)t_red(x)); }
static void t_setr(T x, T y) { x->n.r = (RBTREE_NODE*)y; }
static NODE pool[1200];
static T t_new(long key, int red, int tag) { T x = &pool[tag]; x->key = key; x->tag = tag; x->n.lc = (RBTREE_NODE*)(uintptr_t)red; x->n.r = NULL; return x; }
static int cmp_nodes(const RBTREE_NODE* a, const RBTREE_NODE* b) { long x = ((const NODE*)a)->key, y = ((const NODE*)b)->key; return x < y ? -1 : x > y; }
#include "tall.h"
static RBTREE_CURSOR cur;
static void step(int tag, int up, int n, int turn)
{
    int e = near(tn[tag].key, up); RBTREE_NODE* r;
    if (e == -2) return;
    r = up ? rbtree_next(&cur) : rbtree_prev(&cur);
    vp_assert(r == (e < 0 ? NULL : &tn[e].p->n), "next and prev return the true neighbour or NULL");
    vp_assert(rbtree_current(&cur) == (e < 0 ? &tn[tag].p->n : r), "the cursor is on the node last returned");
    if (n > 0 && e >= 0) step(e, turn ? !up : up, n - 1, turn);
}
void harness(void)
{
    NODE key; RBTREE_NODE* r; int i, x, bottom, up; T b;
    tree.root = (RBTREE_NODE*)build_tall(); check_tall((T)tree.root);
    bottom = spine_tag[n_lev - 1]; b = tn[bottom].p; up = (int)vp_pick_range("up", 0, 1); key.n.lc = key.n.r = NULL; key.tag = 0;
    i = 0;
#if OP == 0
    if (vp_pick_range("fresh", 0, 1)) {
        T z; x = n_t; z = mk(b->key + (up ? 1 : -1), 0, 0, 0);
        vp_assert(rbtree_insert(&tree, &z->n, cmp_nodes) == 0, "inserting a new key succeeds");
    } else { NODE z; z.key = tn[spine_tag[n_lev - 1 - (int)vp_pick_range("level", 0, 3)]].key; z.tag = 0; vp_assert(rbtree_insert(&tree, &z.n, cmp_nodes) == -1, "inserting an equal key fails"); }
    check_tall((T)tree.root);
#elif OP == 1
    x = spine_tag[n_lev - 1 - (int)vp_pick_range("level", 0, 4)]; key.key = tn[x].key;
    r = rbtree_remove(&tree, &key.n, cmp_nodes); vp_assert(r == &tn[x].p->n, "remove returns the equal node"); tn[x].in = 0; check_tall((T)tree.root);
    vp_assert(rbtree_remove(&tree, &key.n, cmp_nodes) == NULL, "it is gone"); check_tall((T)tree.root);
    key.key = b->key + (up ? 1 : -1); vp_assert(rbtree_remove(&tree, &key.n, cmp_nodes) == NULL, "an absent key is not removed"); check_tall((T)tree.root);
#else
    i = (int)vp_pick_range("mode", 0, 2);
    if (i == 0) { x = spine_tag[vp_pick_range("level", 0, n_lev - 1)]; key.key = tn[x].key; r = rbtree_lookup_ex(&tree, &key.n, cmp_nodes, &cur); vp_assert(r == &tn[x].p->n && rbtree_current(&cur) == r && rbtree_lookup(&tree, &key.n, cmp_nodes) == r, "lookup finds exactly the equal node"); step(x, up, 3, (int)vp_pick_range("turn", 0, 1)); }
    else if (i == 1) { key.key = b->key + (up ? 1 : -1); vp_assert(rbtree_lookup_ex(&tree, &key.n, cmp_nodes, &cur) == NULL && rbtree_current(&cur) == NULL && rbtree_lookup(&tree, &key.n, cmp_nodes) == NULL, "an absent key is not found"); }
    else { x = near(up ? -1000000 : 1000000, up); if (x != -2) { r = up ? rbtree_head(&tree, &cur) : rbtree_tail(&tree, &cur); vp_assert(r == &tn[x].p->n, "head and tail"); step(x, up, 3, 0); } }
#endif
    vp_witness("end");
}
