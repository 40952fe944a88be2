/* dictionary values against an ideal map that remembers sorted and insertion order */
#include "vp.h"
#include "data/value.h"
#ifndef FILL
#define FILL 0          /* concrete entries put in first */
#endif
#ifndef PATTERN
#define PATTERN 0
#endif
#ifndef POOL
#define POOL 0          /* 1: keys from a list of tricky keys, 0: every content of 0..LMAX bytes */
#endif
#ifndef ENUM
#define ENUM 0
#endif
#ifndef OWN
#define OWN 0           /* 1: values own memory */
#endif
#ifndef VERIFY
#define VERIFY 0
#endif
#define MAXE (FILL + S + K + 2)
#define KMAX 140
extern int value_dict_verify(VALUE* v);
typedef struct { int len, kind; uint8_t* key; int32_t tag; } ENT;
static ENT ent[MAXE]; static int sorted[MAXE], order[MAXE], n, used;
static VALUE box[3]; static VALUE* v = &box[1];
static int ord, cmpk, kind0; static long calls;
static const char LONG[] = "0123456789abcdefghij";
static int ref(const uint8_t* a, int la, const uint8_t* b, int lb)
{
    int i, m = la < lb ? la : lb; uint64_t r = (uint64_t)(la < lb ? -1 : la > lb); uint8_t mask = cmpk == 2 ? 0xdf : 0xff;
    for (i = m - 1; i >= 0; i--) r = vp_ite((a[i] & mask) < (b[i] & mask), (uint64_t)-1, vp_ite((a[i] & mask) > (b[i] & mask), 1, r));
    r = vp_concretize(r);
    return cmpk == 1 ? -(int)r : (int)r;
}
static int custom(const char* a, size_t la, const char* b, size_t lb)
{
    int r; calls++;
    vp_assert(vp_region_ok(a, la) && vp_region_ok(b, lb), "the comparator gets valid keys");
    r = ref((const uint8_t*)a, (int)la, (const uint8_t*)b, (int)lb);
    return r < 0 ? INT_MIN : r > 0 ? INT_MAX : 0;
}
#define L50 "llllllllllllllllllllllllllllllllllllllllllllllllll"
static const struct { int len; const char* s; } pool[] = {
    { 0, "" }, { 1, "\0" }, { 2, "\0\0" }, { 1, "a" }, { 2, "a\0" }, { 2, "ab" }, { 1, "\xff" }, { 1, "\x7f" }, { 14, "aaaaaaaaaaaaaa" }, { 15, "aaaaaaaaaaaaaab" }, { 15, "aaaaaaaaaaaaaac" },
    { 127, "llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll" },
    { 128, "llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll" },
    { 300, L50 L50 L50 L50 L50 L50 },
};
static int pool_count = sizeof(pool) / sizeof(pool[0]);
static uint8_t* get_key(int* len)
{
    uint8_t* p;
    if (POOL) { static const int sub[] = { 0, 3, 9, 12 }; int i = POOL == 2 ? sub[vp_pick_range("key", 0, 3)] : (int)vp_pick_range("key", 0, (uint64_t)(pool_count - 1)); p = vp_block((size_t)pool[i].len); *len = pool[i].len; memcpy(p, pool[i].s, (size_t)pool[i].len); return p; }
#ifdef LFIX
    *len = LFIX;
#else
    *len = (int)vp_pick_range("key length", 0, LMAX);
#endif
    return vp_filled("key byte", (size_t)*len, NULL);
}
static int find(const uint8_t* k, int len) { int i; for (i = 0; i < n; i++) if (ref(k, len, ent[sorted[i]].key, ent[sorted[i]].len) == 0) return sorted[i]; return -1; }
static void content(const VALUE* m, const ENT* e)
{
    switch (e->kind) {
        case 0: vp_assert(value_type(m) == VALUE_NULL && value_is_new(m), "a new value is null and marked new"); break;
        case 1: vp_assert(value_type(m) == VALUE_INT32 && !value_is_new(m) && value_int32(m) == e->tag, "the value of an entry is unchanged"); break;
        case 2: vp_assert(value_type(m) == VALUE_STRING && value_string_length(m) == 20, "the value of an entry is unchanged"); vp_assert(vp_eq_bytes(value_string(m), LONG, 20), "the value of an entry is unchanged"); break;
        case 3: vp_assert(value_type(m) == VALUE_ARRAY && value_array_size(m) == 1 && value_string_length(value_array_get(m, 0)) == 20, "the value of an entry is unchanged"); break;
        case 4: vp_assert(value_type(m) == VALUE_DICT && value_dict_size(m) == 1 && value_string_length(value_dict_get(m, LONG)) == 20, "the value of an entry is unchanged"); break;
        case 5: vp_assert(value_type(m) == VALUE_NULL && !value_is_new(m), "the value of an entry is unchanged"); break;
        case 6: vp_assert(value_type(m) == VALUE_DICT && value_dict_size(m) == 0 && value_dict_flags(m) == VALUE_DICT_MAINTAINORDER, "the value of an entry is unchanged"); break;
        case 7: vp_assert(value_type(m) == VALUE_ARRAY && value_array_size(m) == 0, "the value of an entry is unchanged"); break;
    }
}
static void put(const uint8_t* k, int len, VALUE* m)
{
    int i, j, x = used++; ENT* e = &ent[x]; VALUE* c; int fm = vp_fail_mode;
    e->len = len; e->key = vp_block((size_t)len); for (i = 0; i < len; i++) e->key[i] = k[i];
    e->kind = 0;
    for (i = 0; i < n; i++) if (ref(k, len, ent[sorted[i]].key, ent[sorted[i]].len) < 0) break;
    for (j = n; j > i; j--) sorted[j] = sorted[j - 1];
    sorted[i] = x; order[n] = x; n++;
    content(m, e);
    vp_fail_mode = 0;
    if (OWN) e->kind = (used + kind0) % 8; else e->kind = x < FILL ? 1 : (int)vp_pick_range("fill", 0, 1);
    switch (e->kind) {
        case 1: e->tag = x < FILL ? x : (int32_t)vp_u32("tag"); value_init_int32(m, e->tag); break;
        case 2: vp_assert(value_init_string_(m, LONG, 20) == 0, "init"); break;
        case 3: vp_assert(value_init_array(m) == 0, "init"); c = value_array_append(m); vp_assert(value_init_string_(c, LONG, 20) == 0, "init"); break;
        case 4: vp_assert(value_init_dict(m) == 0, "init"); c = value_dict_add(m, LONG); vp_assert(value_init_string_(c, LONG, 20) == 0, "init"); break;
        case 5: value_init_null(m); break;
        case 6: vp_assert(value_init_dict_ex(m, NULL, VALUE_DICT_MAINTAINORDER) == 0, "init"); break;
        case 7: vp_assert(value_init_array(m) == 0, "init"); c = value_array_append(m); vp_assert(c != NULL && value_array_remove(m, 0) == 0, "init"); break;
    }
    vp_fail_mode = fm;
}
static int seen, stop_at, stop_rc; static const int* expect_; static int ctx_;
static void same_key(const VALUE* k, const ENT* e)
{
    int i; vp_assert(value_type(k) == VALUE_STRING && value_string_length(k) == (size_t)e->len, "the key of an entry is unchanged");
    for (i = 0; i < e->len; i++) vp_assert_x((uint8_t)value_string(k)[i] == e->key[i], "the key of an entry is unchanged");
    vp_assert(value_string(k)[e->len] == 0, "the key is terminated");
}
static int visit(const VALUE* k, VALUE* m, void* ctx)
{
    vp_assert(ctx == &ctx_, "the walk passes the context"); vp_assert(seen < n, "nothing is visited twice");
    same_key(k, &ent[expect_[seen]]); content(m, &ent[expect_[seen]]);
    seen++;
    return seen - 1 == stop_at ? stop_rc : 0;
}
static void walk(int ordered, int stop, int rc)
{
    int r; seen = 0; stop_at = stop; stop_rc = rc; expect_ = ordered ? order : sorted;
    r = ordered ? value_dict_walk_ordered(v, visit, &ctx_) : value_dict_walk_sorted(v, visit, &ctx_);
    if (ordered && !ord) { vp_assert(r == -1 && seen == 0, "ordered walking needs the order flag"); return; }
    if (stop >= 0 && stop < n) { vp_assert(seen == stop + 1, "a non-zero visitor result stops the walk at once"); vp_assert(r == rc, "and is returned"); }
    else { vp_assert(seen == n, "every entry is visited"); vp_assert(r == 0, "a complete walk returns zero"); }
}
static void keys(int ordered, int cap)
{
    const VALUE** b = vp_block((size_t)cap * sizeof(VALUE*)); const int* o = ordered ? order : sorted; size_t r; int i, w = cap < n ? cap : n;
    if (ordered && !ord) w = 0;
    r = ordered ? value_dict_keys_ordered(v, b, (size_t)cap) : value_dict_keys_sorted(v, b, (size_t)cap);
    vp_assert(r == (size_t)w, "the number of keys fetched");
    for (i = 0; i < w; i++) same_key(b[i], &ent[o[i]]);
}
static int lg2x2(long m) { int r = 0; while ((2L << r) <= m) r++; return 2 * r; }   /* 2 * floor(log2 m) */
static void check(int deep)
{
    int i;
    vp_assert(value_type(v) == VALUE_DICT && value_dict_flags(v) == (unsigned)(ord ? VALUE_DICT_MAINTAINORDER : 0), "still a dictionary of its mode"); vp_assert(value_dict_size(v) == (size_t)n, "size");
    for (i = 0; i < n; i++) {
        ENT* e = &ent[sorted[i]]; VALUE* m; calls = 0; m = value_dict_get_(v, (char*)e->key, (size_t)e->len);
        vp_assert(m != NULL, "every present key is found"); content(m, e);
        if (cmpk) vp_assert(calls <= lg2x2(n + 1), "lookup makes at most 2*log2(n+1) comparisons");
    }
    if (VERIFY) vp_assert(value_dict_verify(v) == 0, "the tree verifies");
    walk(0, -1, 0); walk(1, -1, 0);
    if (deep) {
        int o = (int)vp_pick_range("which", 0, 1), how = (int)vp_pick_range("how", 0, 1);
        if (how) keys(o, (int)vp_pick_range("room", 0, (uint64_t)n + 1));
        else { int rc = (int)vp_u32("rc"); vp_assume_x(rc != 0); walk(o, (int)vp_pick_range("stop", 0, (uint64_t)n), rc); }
    }
}
static int cstring(const uint8_t* k, int len) { int i; if ((len > 15 && !POOL) || cmpk == 2) return 0; for (i = 0; i < len; i++) if (vp_concretize(k[i] == 0)) return 0; return 1; }
static void op(int o)
{
    uint8_t* k; char* cs = NULL; int len, x, i, j; VALUE* m; long failed = vp_alloc_failed;
    if (o == 4) { value_dict_clean(v); n = 0; return; }
    k = get_key(&len); x = find(k, len);
    if (CSTR && cstring(k, len) && vp_pick_range("C string", 0, 1)) { cs = vp_block((size_t)len + 1); memcpy(cs, k, (size_t)len); cs[len] = 0; }
    switch (o) {
        case 0: case 1:
            if (o == 0) m = cs ? value_dict_add(v, cs) : value_dict_add_(v, (char*)k, (size_t)len); else m = cs ? value_dict_get_or_add(v, cs) : value_dict_get_or_add_(v, (char*)k, (size_t)len);
            if (x >= 0) { if (o == 0) vp_assert(m == NULL, "adding a present key fails"); else { vp_assert(m != NULL, "get-or-add finds a present key"); content(m, &ent[x]); vp_assert(m == value_dict_get_(v, (char*)ent[x].key, (size_t)ent[x].len), "get-or-add returns the entry"); } }
            else if (m == NULL) vp_assert(vp_alloc_failed > failed, "adding an absent key fails only when the heap refuses");
            else put(k, len, m);
            break;
        case 2: i = cs ? value_dict_remove(v, cs) : value_dict_remove_(v, (char*)k, (size_t)len);
            vp_assert(i == (x >= 0 ? 0 : -1), "removal succeeds exactly for a present key");
            if (x >= 0) { for (i = j = 0; i < n; i++) if (sorted[i] != x) sorted[j++] = sorted[i]; for (i = j = 0; i < n; i++) if (order[i] != x) order[j++] = order[i]; n--; }
            break;
        case 3: m = cs ? value_dict_get(v, cs) : value_dict_get_(v, (char*)k, (size_t)len); if (x < 0) vp_assert(m == NULL, "an absent key is not found"); else { vp_assert(m != NULL, "a present key is found"); content(m, &ent[x]); } break;
    }
    vp_block_free(k); if (cs) vp_block_free(cs);      /* the dictionary keeps copies */
}
void harness(void)
{
    int i, k; uint8_t kb[2]; VALUE b, a; VALUE* m;
    for (i = 0; i < 48; i++) ((uint8_t*)box)[i] = vp_u8("junk");
    b = box[0]; a = box[2]; vp_fail_mode = 0; vp_alloc_max = 100000;
    ord = (int)vp_pick_range("order", ORDLO, ORDHI); cmpk = (int)vp_pick_range("comparator", CMPLO, CMPHI);
    if (OWN) kind0 = (int)vp_pick_range("first kind", 0, 7);
    vp_fail_mode = FAIL;
    if (!ord && !cmpk && vp_pick_range("init", 0, 1)) i = value_init_dict(v); else i = value_init_dict_ex(v, cmpk ? custom : NULL, ord ? VALUE_DICT_MAINTAINORDER : 0);
    if (i != 0) { vp_assert(i == -1 && vp_alloc_failed == 1 && value_type(v) == VALUE_NULL, "a dictionary whose heap block is refused becomes null"); value_fini(v); vp_assert(vp_live == 0, "nothing leaks"); vp_witness("end"); return; }
    vp_fail_mode = 0;
    for (i = 0; i < FILL; i++) {
        int p = PATTERN == 0 ? i : PATTERN == 1 ? FILL - 1 - i : PATTERN == 2 ? (i & 1 ? FILL - 1 - i / 2 : i / 2) : (i * 37) % FILL;
        kb[0] = (uint8_t)(p / 4 % 4 * 8 + p / 16 * 64); kb[1] = (uint8_t)(p % 4 * 64 + 3); m = value_dict_get_or_add_(v, (char*)kb, 2); vp_assert(m != NULL, "filling"); put(kb, 2, m);
    }
    for (i = 0; i < S; i++) op(0);
    check(0);
    for (k = 0; k < K; k++) { vp_fail_mode = FAIL; op((int)vp_pick_range("op", 0, k + 1 == K ? 4 : 2)); vp_fail_mode = 0; check(ENUM && k + 1 == K); }
    if (OWN && vp_pick_range("reuse", 0, 1)) { value_dict_clean(v); n = 0; check(0); op(1); check(0); }
    value_fini(v); vp_assert(value_type(v) == VALUE_NULL && value_dict_size(v) == 0, "null after finishing");
    vp_assert(vp_live == 0, "every block is released");
    vp_assert_same((uint8_t*)&b, (uint8_t*)&box[0], 0, 16, "memory before is untouched"); vp_assert_same((uint8_t*)&a, (uint8_t*)&box[2], 0, 16, "memory after is untouched");
    vp_witness("end");
}
