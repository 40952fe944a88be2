/* path lookup and path building against a reference reading of the documented grammar */
#include "vp.h"
#include "data/value.h"
#define PMAX 200
static char* path; static int plen;
static VALUE root, exp_;
static VALUE* start;
static void add_int(VALUE* m, int x) { vp_assert(m != NULL && value_init_int32(m, x) == 0, "init"); }
static void make(VALUE* r)
{
    VALUE *a, *b, *c, *d, *e;
    vp_assert(value_init_dict_ex(r, NULL, VALUE_DICT_MAINTAINORDER) == 0, "init");
    a = value_dict_add(r, "a"); vp_assert(value_init_array(a) == 0, "init");
    add_int(value_array_append(a), 1); b = value_array_append(a); vp_assert(value_init_string(b, "s") == 0, "init");
    c = value_array_append(a); vp_assert(value_init_array(c) == 0, "init"); add_int(value_array_append(c), 2); value_array_append(c);
    d = value_array_append(a); vp_assert(value_init_dict(d) == 0, "init"); add_int(value_dict_add(d, "a"), 3); value_dict_add(d, "n");
    b = value_dict_add(r, "b"); vp_assert(value_init_dict(b) == 0, "init"); e = value_dict_add(b, "a"); vp_assert(value_init_array(e) == 0, "init"); add_int(value_dict_add(b, "0"), 4);
    add_int(value_dict_add(r, "ab"), 5); add_int(value_dict_add_(r, "", 0), 6); value_dict_add(r, "n"); value_init_null(value_dict_add(r, "z"));
    e = value_dict_add(r, "g"); vp_assert(value_init_array(e) == 0, "init"); { int i; for (i = 0; i < 11; i++) add_int(value_array_append(e), 10 + i); }
    add_int(value_dict_add(r, "+"), 7); add_int(value_dict_add(r, "-1"), 8);
}
typedef struct { uint8_t b[900]; int n; } DUMP;
static DUMP d1, d2; static DUMP* cur;
static void byte_(int x) { vp_assert(cur->n < 900, "dump room"); cur->b[cur->n++] = (uint8_t)x; }
static void dump(const VALUE* v);
static int visit(const VALUE* k, VALUE* v, void* ctx) { size_t i; (void)ctx; byte_((int)value_string_length(k)); for (i = 0; i < value_string_length(k); i++) byte_(value_string(k)[i]); dump(v); return 0; }
static void dump(const VALUE* v)
{
    size_t i; int t = value_type(v), x; byte_(t + (value_is_new(v) ? 100 : 0));
    switch (t) {
        case VALUE_INT32: x = value_int32(v); byte_(x); byte_(x >> 8); byte_(x >> 16); byte_(x >> 24); break;
        case VALUE_STRING: byte_((int)value_string_length(v)); for (i = 0; i < value_string_length(v); i++) byte_(value_string(v)[i]); break;
        case VALUE_ARRAY: byte_((int)value_array_size(v)); for (i = 0; i < value_array_size(v); i++) dump(value_array_get(v, i)); break;
        case VALUE_DICT: byte_((int)value_dict_size(v)); value_dict_walk_sorted(v, visit, NULL); break;
    }
}
static void take(DUMP* d, const VALUE* v) { d->n = 0; cur = d; dump(v); }
static void same_dump(const char* msg) { int i; vp_assert(d1.n == d2.n, msg); for (i = 0; i < d1.n; i++) vp_assert_x(d1.b[i] == d2.b[i], msg); }
/* everything in o is still in w */
static const VALUE* sub_w;
static void subset(const VALUE* o, const VALUE* w);
static int sub_visit(const VALUE* k, VALUE* v, void* ctx) { const VALUE* w = ctx; const VALUE* m = value_dict_get_(w, value_string(k), value_string_length(k)); vp_assert(m != NULL, "existing entries stay"); subset(v, m); return 0; }
static void subset(const VALUE* o, const VALUE* w)
{
    size_t i; int t = value_type(o);
    if (value_is_new(o)) return;
    vp_assert(value_type(w) == (VALUE_TYPE)t && !value_is_new(w), "existing values keep their type");
    switch (t) {
        case VALUE_INT32: vp_assert(value_int32(w) == value_int32(o), "existing values keep their content"); break;
        case VALUE_STRING: vp_assert(value_string_length(w) == value_string_length(o) && value_string(w)[0] == value_string(o)[0], "existing values keep their content"); break;
        case VALUE_ARRAY: vp_assert(value_array_size(w) >= value_array_size(o), "existing members stay"); for (i = 0; i < value_array_size(o); i++) subset(value_array_get(o, i), value_array_get(w, i)); break;
        case VALUE_DICT: value_dict_walk_sorted(o, sub_visit, (void*)w); break;
    }
    (void)sub_w;
}
/* reference: components */
typedef struct { int kind, beg, end; int sign; uint64_t num; int huge; } COMP;    /* kind 0 key, 1 index, 2 append, 3 malformed, 4 key with bracket characters (outside the grammar) */
static COMP comp[PMAX]; static int nc;
static int at(int i) { return (int)vp_concretize((uint8_t)path[i]); }
static int is_digit(int i) { return (int)vp_concretize(((uint8_t)path[i] >= '0') & ((uint8_t)path[i] <= '9')); }
static int is(int i, char c) { return (int)vp_concretize(path[i] == c); }
static void parse(void)
{
    int i = 0, e, j; COMP* c; nc = 0;
    while (i < plen) {
        if (is(i, '/')) { i++; continue; }
        e = i + 1; while (e < plen && !is(e, '/') && !is(e, '[')) e++;
        c = &comp[nc++]; c->beg = i; c->end = e; c->huge = 0; c->num = 0; c->sign = 1;
        if (is(i, '[')) {
            int first = -1, any = 0;
            if (e - i < 2 || !is(e - 1, ']')) c->kind = 4;
            else if (e - i == 2) c->kind = 2;
            else {
                j = i + 1; c->kind = 1;
                if (is(j, '-')) { c->sign = -1; j++; } else if (is(j, '+')) j++;
                for (; j < e - 1; j++) {
                    if (!is_digit(j)) { c->kind = 3; break; }
                    any = 1; if (first < 0 && !is(j, '0')) first = j;
                }
                if (c->kind == 1 && !any) c->kind = 3;
                if (c->kind == 1 && first >= 0) {
                    if (e - 1 - first > 18) c->huge = 1;
                    else for (j = first; j < e - 1; j++) c->num = c->num * 10 + (uint64_t)((uint8_t)path[j] - '0');
                }
            }
        } else { c->kind = 0; for (j = i; j < e; j++) if (is(j, ']')) c->kind = 4; }
        i = e;
    }
}
static VALUE* index_(VALUE* v, COMP* c)
{
    uint64_t n = value_array_size(v), k;
    if (value_type(v) != VALUE_ARRAY || c->huge) return NULL;
    for (k = 0; k < n; k++) if (vp_concretize(c->sign > 0 ? c->num == k : c->num == n - k)) return value_array_get(v, k);
    return NULL;
}
static VALUE* reference(VALUE* v)
{
    int i; 
    for (i = 0; i < nc && v != NULL; i++) {
        COMP* c = &comp[i];
        if (c->kind == 0) v = value_dict_get_(v, path + c->beg, (size_t)(c->end - c->beg));
        else if (c->kind == 1) v = index_(v, c); else v = NULL;
    }
    return v;
}
static int outside;
static VALUE* reference_build(VALUE* v)
{
    int i; VALUE* w;
    for (i = 0; i < nc; i++) {
        COMP* c = &comp[i]; int fresh;
        if (c->kind == 4) { outside = 1; return NULL; }
        if (c->kind == 3) return NULL;
        fresh = value_is_new(v);
        if (c->kind == 0) {
            if (fresh) vp_assert(value_init_dict(v) == 0, "init");
            if (value_type(v) != VALUE_DICT) return NULL;
            w = value_dict_get_(v, path + c->beg, (size_t)(c->end - c->beg)); if (w == NULL) w = value_dict_add_(v, path + c->beg, (size_t)(c->end - c->beg));
        } else {
            if (fresh) vp_assert(value_init_array(v) == 0, "init");
            if (value_type(v) != VALUE_ARRAY) return NULL;
            w = c->kind == 2 ? value_array_append(v) : index_(v, c);
        }
        if (w == NULL) return NULL;
        v = w;
    }
    return v;
}
/* ---- inputs */
static char buf[PMAX];
static void put(const char* s) { while (*s) buf[plen++] = *s++; }
static void make_path(void)
{
    int i;
#if MODE == 0      /* every string of 0..N bytes */
    plen = (int)vp_pick_range("path length", 0, N);
    for (i = 0; i < plen; i++) { buf[i] = (char)vp_u8("path"); vp_assume_x(buf[i] != 0); }
#elif MODE == 1    /* prefix of well-formed components, then one arbitrary tail */
    static const char* const pre[] = { "a/[2]", "//a[-1]/", "b/a", "/a/[3]/n", "n", "z", "ab" };
    put(pre[vp_pick_range("prefix", 0, 6)]);
    { int n = (int)vp_pick_range("path length", 0, N); for (i = 0; i < n; i++) { buf[plen] = (char)vp_u8("path"); vp_assume_x(buf[plen] != 0); plen++; } }
#elif MODE == 2    /* an index of many digits */
    static const char* const pre[] = { "a", "g/", "a/[3]", "b/a", "n" };
    static const int zeros[] = { 0, 1, 17, 22 }; static const int fixed[] = { 0, 10, 16, 17, 18, 19, 25, 41 };
    int z, f, s, k;
    put(pre[vp_pick_range("prefix", 0, 4)]); buf[plen++] = '[';
    s = (int)vp_pick_range("sign", 0, 2); if (s) buf[plen++] = s == 1 ? '-' : '+';
    z = zeros[vp_pick_range("zeros", 0, 3)]; for (i = 0; i < z; i++) buf[plen++] = '0';
    k = (int)vp_pick_range("digits", 1, N); f = fixed[vp_pick_range("fixed digits", 0, 7)];
    if (f) { static const char max[] = "1844674407370955161"; int which = (int)vp_pick_range("big", 0, 2);
        for (i = 0; i < f; i++) buf[plen++] = which == 0 ? (i < 19 ? max[i] : '6') : which == 1 ? (i == 0 ? '1' : '0') : (i < 18 ? "922337203685477580"[i] : '8'); }
    for (i = 0; i < k; i++) { buf[plen] = (char)vp_u8("digit"); vp_assume_x((buf[plen] >= '0') & (buf[plen] <= '9')); plen++; }
    buf[plen++] = ']'; if (vp_pick_range("tail", 0, 1)) put("/a");
#else              /* several components */
    static const char* const c[] = { "a", "b", "ab", "n", "z", "x", "[0]", "[2]", "[-1]", "[3]", "[1]", "[]", "[+1]", "[-4]", "[-0]", "[x]", "[+]", "[-]", "[1]1]", "0", "[1]x", "a]", "[", "]" };
    int n = (int)vp_pick_range("components", 0, N);
    if (vp_pick_range("lead", 0, 1)) put("/");
    for (i = 0; i < n; i++) { const char* s = c[vp_pick_range("component", 0, sizeof(c) / sizeof(c[0]) - 1)]; if (i && (s[0] != '[' || SEPS)) put(vp_pick_range("separator", 0, 1) || s[0] != '[' ? "/" : ""); put(s); }
    if (vp_pick_range("trail", 0, 1)) put("//");
#endif
    path = vp_block((size_t)plen + 1); for (i = 0; i < plen; i++) path[i] = buf[i]; path[plen] = 0;
}
static VALUE* choose(VALUE* r, int i) { switch (i) { case 0: return r; case 1: return value_dict_get(r, "a"); case 2: return value_dict_get(r, "n"); case 3: return value_dict_get(r, "ab"); default: return value_dict_get(r, "g"); } }
void harness(void)
{
    VALUE *r, *w; int s; long calls, failed;
    vp_alloc_max = 100000; vp_fail_mode = 0;
    make(&root); s = (int)vp_pick_range("root", 0, ROOTS); start = choose(&root, s);
    make_path();
#if !BUILD
    if (vp_pick_range("null root", 0, 1)) { vp_assert(value_path(NULL, path) == NULL, "no hierarchy"); vp_witness("end"); return; }
    take(&d1, &root); calls = vp_alloc_calls;
    r = value_path(start, path); parse(); w = reference(start);
    vp_assert(r == w, "the path resolves to the value reached step by step");
    vp_assert(vp_alloc_calls == calls, "lookup allocates nothing"); take(&d2, &root); same_dump("lookup changes nothing"); (void)failed;
#else
    make(&exp_); failed = vp_alloc_failed; (void)calls;
    vp_fail_mode = FAIL; r = value_build_path(start, path); vp_fail_mode = 0; parse();
    if (vp_alloc_failed > failed) {
        if (r == NULL) subset(&exp_, &root);
    } else {
        w = reference_build(choose(&exp_, s));
        if (outside) { value_fini(&exp_); make(&exp_); subset(&exp_, &root); }
        else {
            vp_assert((r == NULL) == (w == NULL), "path building succeeds exactly when the path can be resolved");
            if (r != NULL) {
                vp_assert(value_is_new(r) == value_is_new(w) && value_type(r) == value_type(w), "the last component"); take(&d1, &root); take(&d2, &exp_); same_dump("just the missing components are created");
                if (value_is_new(r)) { add_int(r, 0x7777); add_int(w, 0x7777); } else if (value_type(w) == VALUE_DICT) { add_int(value_dict_add(r, "\1"), 9); add_int(value_dict_add(w, "\1"), 9); } else if (value_type(w) == VALUE_ARRAY) { add_int(value_array_append(r), 9); add_int(value_array_append(w), 9); } else { value_fini(r); value_fini(w); add_int(r, 0x7777); add_int(w, 0x7777); }
                take(&d1, &root); take(&d2, &exp_); same_dump("the returned value is the one at the path");
            } else { value_fini(&exp_); make(&exp_); subset(&exp_, &root); }
        }
    }
    value_fini(&exp_);
#endif
    value_fini(&root); vp_assert(vp_live == 0, "every block is released");
    vp_witness("end");
}
