/* Very tall valid red-black trees. Only the spine (DEPTH levels, alternating colours) and the first levels of the subtrees hanging off it are
 * materialised; a "far" node stands for a black subtree of known black height which none of the operations below has to look into.
 * The including file defines T (node pointer), t_new(key, red, tag), t_left, t_right, t_setl, t_setr, t_red, t_key, t_tag. */
#define GAP 1024L
#define MAXT 1200
static struct { T p; long key, lo, hi; int far_bh; uint8_t in, seen; } tn[MAXT]; static int n_t; static T spine_[DEPTH + 1]; static int spine_tag[DEPTH + 1];
static int pattern, n_lev, uncles;
static int dir_right(int i) { switch (pattern) { case 0: return 0; case 1: return 1; case 2: return i & 1; case 3: return i == 0; case 4: return i != 0; default: return (i >> 1) & 1; } }
static T mk(long key, int red, long lo, long hi) { T x = t_new(key, red, n_t); vp_assert_x(n_t < MAXT, "harness"); tn[n_t].p = x; tn[n_t].key = key; tn[n_t].lo = lo; tn[n_t].hi = hi; tn[n_t].far_bh = -1; tn[n_t].in = 1; n_t++; return x; }
static T sub(int bh, int red, long lo, long hi, int depth)
{
    T x; long mid = (lo + hi) / 2; int me = n_t;
    if (!red && bh == 0) return NULL;
    x = mk(mid, red, lo, hi);
    if (depth == 0 && bh - !red > 0) tn[me].far_bh = bh - !red;
    else { t_setl(x, sub(bh - !red, 0, lo, mid, depth - 1)); t_setr(x, sub(bh - !red, 0, mid, hi, depth - 1)); }
    return x;
}
static T spine(int i, long lo, long hi)
{
    int red = i & 1, r = dir_right(i), bh = 0, k; long key = r ? lo + GAP : hi - GAP; T x;
    for (k = i + 1; k < n_lev; k++) bh += !(k & 1);      /* black height of the subtrees */
    spine_tag[i] = n_t; x = spine_[i] = mk(key, red, lo, hi);
    if (i + 1 < n_lev) {
        int ored = uncles && !red;
        if (r) { t_setr(x, spine(i + 1, key, hi)); t_setl(x, sub(bh, ored, lo, key, 2)); }
        else { t_setl(x, spine(i + 1, lo, key)); t_setr(x, sub(bh, ored, key, hi, 2)); }
    }
    return x;
}
static T build_tall(void)
{
    pattern = (int)vp_pick_range("pattern", 0, 5); n_lev = (int)vp_pick_range("levels", DEPTH - 1, DEPTH); uncles = (int)vp_pick_range("red siblings", 0, 1);
    return spine(0, -(DEPTH + 4) * GAP, (DEPTH + 4) * GAP);
}
/* structure below x; returns the black height */
static int check_rec(T x, int parent_red, long lo, long hi, int depth)
{
    int tag, red, l, r;
    if (x == NULL) return 0;
    vp_assert(depth > 0, "no node is deeper than before by more than one level"); if (depth <= 0) return 0;
    tag = t_tag(x); red = t_red(x);
    vp_assert(!(red && parent_red), "a red node has a red child (or the root is red)"); vp_assert(t_key(x) > lo && t_key(x) < hi, "in-order sequence is strictly increasing");
    vp_assert(!tn[tag].seen, "each node once"); tn[tag].seen = 1;
    if (tn[tag].far_bh >= 0) return tn[tag].far_bh + !red;
    l = check_rec(t_left(x), red, lo, t_key(x), depth - 1); r = check_rec(t_right(x), red, t_key(x), hi, depth - 1);
    vp_assert(l == r, "every path has the same number of black nodes");
    return l + !red;
}
static void check_tall(T root)
{
    int i; for (i = 0; i < n_t; i++) tn[i].seen = 0;
    check_rec(root, 1, -1000000, 1000000, n_lev + 2);
    for (i = 0; i < n_t; i++) vp_assert(tn[i].seen == tn[i].in, "exactly the expected nodes are in the tree");
}
/* the neighbour of key k, when it is known: tag, -1 none, -2 hidden inside a far subtree */
static int near(long k, int up)
{
    int i, best = -1;
    for (i = 0; i < n_t; i++) if (tn[i].in && (up ? tn[i].key > k : tn[i].key < k) && (best < 0 || (up ? tn[i].key < tn[best].key : tn[i].key > tn[best].key))) best = i;
    for (i = 0; i < n_t; i++) if (tn[i].far_bh >= 0 && (up ? tn[i].hi > k && (best < 0 || tn[i].lo < tn[best].key) : tn[i].lo < k && (best < 0 || tn[i].hi > tn[best].key))) return -2;
    return best;
}
