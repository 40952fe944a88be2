/* very tall valid dictionary trees: lookups, insertion and removal at the bottom, walks stopped early */
#include "vp.h"
#include "data/value.c"
typedef RBTREE* T;
static T t_left(T x) { return x->left; }
static T t_right(T x) { return x->right; }
static int t_red(T x) { return !!IS_RED(x); }
static void t_setl(T x, T y) { x->left = y; }
static void t_setr(T x, T y) { x->right = y; }
static void enc(long k, char* c) { int i; k += 1L << 40; for (i = 0; i < 8; i++) c[i] = (char)(k >> (56 - 8 * i)); }
static long dec(const VALUE* v) { long k = 0; int i; const uint8_t* c = (const uint8_t*)value_string(v); vp_assert(value_string_length(v) == 8, "key length"); for (i = 0; i < 8; i++) k = (k << 8) | c[i]; return k - (1L << 40); }
static long t_key(T x) { return dec(&x->key); }
static int n_new = -1;
static int t_tag(T x) { return value_is_new(&x->value) ? n_new : value_int32(&x->value); }
#define NODESIZE (ORDER ? sizeof(RBTREE) : OFFSETOF(RBTREE, order_prev))
static T t_new(long key, int red, int tag)
{
    char c[8]; T x = malloc(NODESIZE); memset(x, 0, NODESIZE); enc(key, c);
    vp_assert_x(value_init_string_(&x->key, c, 8) == 0, "init"); value_init_int32(&x->value, tag); x->left = x->right = NULL; if (red) MAKE_RED(x); else MAKE_BLACK(x); return x;
}
#include "tall.h"
static VALUE dict; static DICT* d; static int n_seen; static const VALUE* walked[4];
static int visit(const VALUE* k, VALUE* v, void* ctx) { walked[n_seen++] = k; return n_seen == 3 ? 7 : 0; }
void harness(void)
{
    int x, e, i, up, lev; char c[8]; VALUE* v; T b; const VALUE* keys[4];
    vp_alloc_max = 100000;
    vp_assert(value_init_dict_ex(&dict, NULL, ORDER ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init"); d = value_dict_payload(&dict);
    d->root = build_tall(); check_tall(d->root); d->size = (size_t)n_t;
    if (ORDER) { T last = NULL; for (i = 0; i < n_t; i++) { tn[i].p->order_prev = last; if (last) last->order_next = tn[i].p; else d->order_head = tn[i].p; last = tn[i].p; } d->order_tail = last; }
    b = spine_[n_lev - 1]; up = (int)vp_pick_range("up", 0, 1);
    switch ((int)vp_pick_range("op", 0, 3)) {
    case 0: enc(tn[spine_tag[n_lev - 1]].key + (up ? 1 : -1), c); vp_assert(value_dict_get_(&dict, c, 8) == NULL, "an absent key is not found");
        v = vp_pick_range("add", 0, 1) ? value_dict_add_(&dict, c, 8) : value_dict_get_or_add_(&dict, c, 8); vp_assert(v != NULL && value_is_new(v), "a new entry");
        n_new = n_t; tn[n_t].in = 1; tn[n_t].far_bh = -1; n_t++; check_tall(d->root); vp_assert(d->size == (size_t)n_t, "size"); vp_assert(value_dict_get_(&dict, c, 8) == v && value_dict_add_(&dict, c, 8) == NULL, "present now"); break;
    case 1: lev = n_lev - 1 - (int)vp_pick_range("level", 0, 4); x = spine_tag[lev]; enc(tn[x].key, c); vp_assert(value_dict_remove_(&dict, c, 8) == 0, "removing a present key succeeds"); tn[x].in = 0; check_tall(d->root);
        vp_assert(d->size == (size_t)n_t - 1, "size"); vp_assert(value_dict_remove_(&dict, c, 8) == -1 && value_dict_get_(&dict, c, 8) == NULL, "it is gone"); check_tall(d->root); break;
    case 2: x = spine_tag[vp_pick_range("level", 0, n_lev - 1)]; enc(tn[x].key, c); vp_assert(value_dict_get_(&dict, c, 8) == &tn[x].p->value && value_dict_get_or_add_(&dict, c, 8) == &tn[x].p->value, "lookup finds exactly the equal entry"); check_tall(d->root); break;
    case 3: /* the first three keys, when they are known */
        x = near(-1000000, 1); e = x < 0 ? -2 : near(tn[x].key, 1); i = e < 0 ? -2 : near(tn[e].key, 1); if (i < 0) break;
        vp_assert(value_dict_keys_sorted(&dict, keys, 3) == 3 && keys[0] == &tn[x].p->key && keys[1] == &tn[e].p->key && keys[2] == &tn[i].p->key, "smallest keys first");
        vp_assert(value_dict_walk_sorted(&dict, visit, NULL) == 7 && n_seen == 3 && walked[0] == keys[0] && walked[1] == keys[1] && walked[2] == keys[2], "a walk visits the keys in order"); vp_witness("walk"); break;
    }
    vp_witness("end");
}
