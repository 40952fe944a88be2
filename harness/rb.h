/* Arbitrary valid red-black tree of height <= H built directly in memory, and the check that a tree is a valid one.
 * Node i (heap numbering from 1) is present iff pr[i]; its key is its in-order position, so every relative order of keys is covered.
 * The colour is kept in bit 0 of the left pointer (the documented layout of RBTREE_NODE). */
#include "vp.h"
#include "data/rbtree.h"
#ifndef H
#define H 3
#endif
#define NP (1 << H)          /* positions 1 .. NP-1 */
typedef struct { RBTREE_NODE n; long key; int tag; } NODE;
#ifdef SEP                    /* every node in a heap block of its own */
static NODE* ndp[NP + 1];
#define ND(i) (*ndp[i])
#else
static NODE nd[NP + 1];      /* nd[NP] is the extra node */
#define ND(i) (nd[i])
#endif
static uint8_t pr[2 * NP];   /* presence (0/1), positions >= NP absent */
static uint8_t rd_[NP];      /* red */
static RBTREE tree;
static int BH;               /* black height */

static uint32_t cneg, cpos;  /* what the comparator returns: any negative and any positive value */
static int cmp_nodes(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    const NODE* x = (const NODE*)a; const NODE* y = (const NODE*)b;
    return (int)vp_ite(x->key < y->key, cneg, vp_ite(x->key > y->key, cpos, 0));
}
static int inorder_pos(int i) { /* 1-based in-order index of heap position i in a perfect tree of height H */
    int d = 0, j = i; while (j > 1) { j >>= 1; d++; }
    int idx = i - (1 << d); return ((2 * idx + 1) << (H - 1 - d)); }
/* the node at position i; key 2 * position */
static void build_tree(void)
{
    int i; uint8_t bh[2 * NP];
    for (i = 1; i < NP; i++) { pr[i] = (uint8_t)vp_bits("present", 1); rd_[i] = (uint8_t)vp_bits("red", 1); }
    for (i = NP; i < 2 * NP; i++) { pr[i] = 0; bh[i] = 0; }
    int ok = 1;
    cneg = (uint32_t)vp_bits("negative", 31) | 0x80000000u; cpos = (uint32_t)vp_bits("positive", 31); vp_assume_x(cpos > 0);
#ifdef SEP
    for (i = 1; i <= NP; i++) ndp[i] = vp_block(sizeof(NODE));
#endif
    for (i = NP - 1; i >= 1; i--) {
        int l = 2 * i, r = 2 * i + 1; uint8_t lr = l < NP ? (pr[l] & rd_[l]) : 0, rr = r < NP ? (pr[r] & rd_[r]) : 0;
        ok &= (pr[i] | (1 ^ (pr[l] | pr[r])));                    /* children only under present nodes */
        ok &= (1 ^ (rd_[i] & (1 ^ pr[i])));                       /* canonical: absent nodes are not red */
        ok &= (1 ^ (rd_[i] & (lr | rr)));                         /* no red node with a red child */
        ok &= (bh[l] == bh[r]) | (1 ^ pr[i]);                     /* equal black heights */
        bh[i] = (uint8_t)vp_ite(pr[i], bh[l] + (rd_[i] ^ 1), 0);
    }
    ok &= 1 ^ rd_[1];
    vp_assume_x(ok);
    BH = (int)vp_concretize(bh[1]);
    for (i = 1; i < NP; i++) {
        int l = 2 * i, r = 2 * i + 1;
        NODE* lp = l < NP ? &ND(l) : NULL; NODE* rp = r < NP ? &ND(r) : NULL;
        uintptr_t lr = vp_ite(rd_[i], (uintptr_t)lp | 1, (uintptr_t)lp), lz = vp_ite(rd_[i], 1, 0);
        ND(i).n.lc = (RBTREE_NODE*)(uintptr_t)(l < NP ? vp_ite(pr[l], lr, lz) : lz);
        ND(i).n.r = (RBTREE_NODE*)(uintptr_t)(r < NP ? vp_ite(pr[r], (uintptr_t)rp, 0) : 0);
        ND(i).key = 2 * inorder_pos(i); ND(i).tag = i;
    }
    tree.root = (RBTREE_NODE*)(uintptr_t)vp_ite(pr[1], (uintptr_t)&ND(1), 0);
}
static uint8_t seen[NP + 1];
static uint64_t lbh;  /* black height found */
/* checks the subtree at p (guard g: the subtree exists on this path); returns its black height */
static uint64_t check_sub(uintptr_t p, int g, int parent_red, long lo, long hi, int depth)
{
    NODE* x; int e = g & (p != 0), red; uint64_t lh, rh;
    x = (NODE*)vp_pick((void*)p);
    if (x == NULL) return 0;
    vp_assert_x((1 ^ e) | (depth > 0), "red-black tree deeper than 2*log2(n+1)");
    if (depth == 0) return 0;
    e &= 1;
    red = (int)((uintptr_t)x->n.lc & 1);
    vp_assert_x((1 ^ e) | (1 ^ (red & parent_red)), "a red node has a red child (or the root is red)");
    vp_assert_x((1 ^ e) | ((x->key > lo) & (x->key < hi)), "in-order sequence is strictly increasing");
    seen[x->tag] |= (uint8_t)e;
    lh = check_sub((uintptr_t)x->n.lc & ~(uintptr_t)1, e, red, lo, x->key, depth - 1);
    rh = check_sub((uintptr_t)x->n.r, e, red, x->key, hi, depth - 1);
    vp_assert_x((1 ^ e) | (lh == rh), "every path has the same number of black nodes");
    return vp_ite(e, lh + (red ^ 1), 0);
}
static void check_tree(void)
{
    int i; for (i = 0; i <= NP; i++) seen[i] = 0;
    check_sub((uintptr_t)tree.root, 1, 1, -1000000, 1000000, H + 2);
}
