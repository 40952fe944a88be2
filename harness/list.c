/* intrusive lists against an ideal sequence. KIND 0 LIST, 1 SLIST, 2 QLIST */
#include "vp.h"
#include "data/list.h"
#if KIND == 0
#define L LIST
#define P(x) list_##x
#define ND LIST_NODE
#define DATA LIST_DATA
#elif KIND == 1
#define L SLIST
#define P(x) slist_##x
#define ND SLIST_NODE
#define DATA SLIST_DATA
#else
#define L QLIST
#define P(x) qlist_##x
#define ND QLIST_NODE
#define DATA QLIST_DATA
#endif
typedef struct { uint32_t a; ND node; uint64_t v; } S;
static S* item[N]; static uint64_t val[N]; static int m[N + 1], ms; static uint8_t in[N];
static ND* nd(int k) { return &item[m[k]]->node; }
static void m_ins(int pos, int x) { int i; for (i = ms; i > pos; i--) m[i] = m[i - 1]; m[pos] = x; ms++; in[x] = 1; }
static void m_del(int pos) { int i; in[m[pos]] = 0; for (i = pos; i + 1 < ms; i++) m[i] = m[i + 1]; ms--; }
static int fresh(void) { int i, k = 0; int c[N]; for (i = 0; i < N; i++) if (!in[i]) c[k++] = i; return k == 0 ? -1 : c[ANYFRESH ? vp_pick_range("node", 0, k - 1) : 0]; }
static void check(L* l)
{
    int i = 0; ND* n; S* s;
    vp_assert((P(is_empty)(l) != 0) == (ms == 0), "emptiness");
    vp_assert((const ND*)P(head)(l) == (ms ? nd(0) : P(end)(l)), "head");
#if KIND != 1
    vp_assert((const ND*)P(tail)(l) == (ms ? nd(ms - 1) : P(end)(l)), "tail");
#endif
    for (n = P(head)(l); n != P(end)(l); n = P(next)(n)) {
        vp_assert(i < ms, "walk does not exceed the sequence"); vp_assert(n == nd(i), "forward walk");
        s = DATA(n, S, node); vp_assert(s == item[m[i]] && s->v == val[m[i]] && s->a == (uint32_t)m[i], "payload"); i++;
    }
    vp_assert(i == ms, "forward walk is complete");
#if KIND == 0
    for (n = P(tail)(l); n != P(end)(l); n = P(prev)(n)) { vp_assert(i > 0, "backward walk does not exceed the sequence"); i--; vp_assert(n == nd(i), "backward walk"); }
    vp_assert(i == 0, "backward walk is complete");
#endif
}
static void op(L* l)
{
    int o = (int)vp_pick_range("op", 0, 6), x, i;
    if (o <= 3) { x = fresh(); if (x < 0) return; }
    switch (o) {
#if KIND != 1
    case 0: P(append)(l, &item[x]->node); m_ins(ms, x); break;
#endif
    case 1: P(prepend)(l, &item[x]->node); m_ins(0, x); break;
    case 2:
        i = (int)vp_pick_range("where", 0, (uint64_t)ms);
#if KIND == 0
        if (i == 0) break;
#endif
        P(insert_after)(l, i ? nd(i - 1) : (ND*)P(end)(l), &item[x]->node); m_ins(i, x); break;
#if KIND == 0
    case 3: if (!ms) break; i = (int)vp_pick_range("where", 0, (uint64_t)ms - 1); P(insert_before)(l, nd(i), &item[x]->node); m_ins(i, x); break;
    case 4: if (!ms) break; i = (int)vp_pick_range("where", 0, (uint64_t)ms - 1); P(remove)(l, nd(i)); m_del(i); break;
    case 6: if (!ms) break; P(remove_tail)(l); m_del(ms - 1); break;
#else
    case 4: if (!ms) break; i = (int)vp_pick_range("where", 0, (uint64_t)ms - 1); P(remove)(l, i ? nd(i - 1) : (ND*)P(end)(l), nd(i)); m_del(i); break;
#endif
    case 5: if (!ms) break; P(remove_head)(l); m_del(0); break;
    default: return;
    }
    check(l);
}
void harness(void)
{
    L* l = vp_block(sizeof(L)); int i, k, n;
    for (i = 0; i < N; i++) { item[i] = vp_block(sizeof(S)); val[i] = item[i]->v = vp_u64("payload"); item[i]->a = (uint32_t)i; }
    P(init)(l); check(l);
    n = (int)vp_pick_range("n", 0, PRE);
    for (i = 0; i < n; i++) {
#if KIND == 1
        if (i == 0) P(prepend)(l, &item[i]->node); else P(insert_after)(l, &item[i - 1]->node, &item[i]->node);
#else
        P(append)(l, &item[i]->node);
#endif
        m_ins(ms, i);
    }
    check(l);
    for (k = 0; k < K; k++) op(l);
    vp_witness("end");
}
