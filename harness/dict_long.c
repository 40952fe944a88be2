/* long keys: lengths around every power of two up to 2^16, keys which differ in one byte anywhere or are prefixes of one another */
#include "vp.h"
#include "data/value.h"
static const int lens[] = { 1, 63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537 };
static VALUE root; static uint8_t *k1, *k2; static int n1, n2;
static int mycmp(const char* a, size_t n, const char* b, size_t m) { size_t k = n < m ? n : m; int r = memcmp(b, a, k); return r ? r : n < m ? 1 : n > m ? -1 : 0; }
static int seen; static int visit(const VALUE* k, VALUE* v, void* ctx) { int first = *(int*)ctx, me = (seen == 0) == first ? 1 : 2; (void)k; vp_assert(value_int32(v) == me, "sorted order"); vp_assert(value_string_length(k) == (size_t)(me == 1 ? n1 : n2), "the key's length"); seen++; return 0; }
void harness(void)
{
    int i, d, p, cmp, same, first, path = PATHS; VALUE* v; VALUE* w; uint8_t x, y;
    vp_alloc_max = 1000000;
    cmp = PATHS ? 0 : (int)vp_pick_range("comparator", 0, 1); d = (int)vp_pick_range("length", LO, HI); n1 = lens[d];
    i = (int)vp_pick_range("second length", 0, 2); n2 = i == 0 ? n1 : i == 1 ? n1 - 1 : lens[d > 0 ? d - 1 : 0];
    p = (int)vp_pick_range("position", 0, 5); p = p == 0 ? 0 : p == 1 ? n1 - 1 : p == 2 ? n2 - 1 : p == 3 ? n2 / 2 : p == 4 ? (n2 > 256 ? 255 : n2 - 1) : (n2 > 256 ? 256 : 1);
    if (n2 == 0 || p < 0 || p >= n1) return;
    x = vp_u8("byte"); y = vp_u8("byte"); 
    if (path) { vp_assume_x((x >= 'a') & (x <= 'z')); vp_assume_x((y >= 'a') & (y <= 'z')); }
    k1 = vp_block((size_t)n1 + 1); k2 = vp_block((size_t)n2 + 1); for (i = 0; i < n1; i++) k1[i] = (uint8_t)('b' + (i >> 4) % 3); for (i = 0; i < n2; i++) k2[i] = k1[i]; k1[n1] = k2[n2] = 0;
    k1[p] = x; if (p < n2) k2[p] = y;
    same = (int)vp_concretize((uint64_t)((n1 == n2) & (x == y)));
    first = p < n2 ? (int)vp_concretize((uint64_t)((x < y) | ((x == y) & (n1 <= n2)))) : 0; if (cmp) first = !first;
    vp_assert((cmp ? value_init_dict_ex(&root, mycmp, 0) : value_init_dict(&root)) == 0, "init");
#if PATHS != 2
    v = value_dict_add_(&root, (char*)k1, (size_t)n1); vp_assert(v != NULL && value_init_int32(v, 1) == 0, "adding"); 
    w = value_dict_add_(&root, (char*)k2, (size_t)n2); vp_assert((w != NULL) == !same, "adding succeeds exactly for a new key"); if (w) value_init_int32(w, 2);
#else
    v = value_build_path(&root, (char*)k1); vp_assert(v != NULL && value_is_new(v) && value_init_int32(v, 1) == 0, "building");
    w = value_build_path(&root, (char*)k2); vp_assert(w != NULL && value_is_new(w) == !same && (w == v) == same, "building"); if (!same) value_init_int32(w, 2); else w = NULL;
#endif
    vp_assert(value_dict_size(&root) == (size_t)(2 - same), "size");
#if PATHS
    vp_assert(value_path(&root, (char*)k1) == v && value_path(&root, (char*)k2) == (same ? v : w), "the path resolves to the entry");
#endif
    vp_assert(value_dict_get_(&root, (char*)k1, (size_t)n1) == v && value_dict_get_(&root, (char*)k2, (size_t)n2) == (same ? v : w), "exactly the equal entry is found");
    if (!same) { seen = 0; vp_assert(value_dict_walk_sorted(&root, visit, &first) == 0 && seen == 2, "every entry is visited"); }
    vp_assert(value_dict_remove_(&root, (char*)k2, (size_t)n2) == 0 && value_dict_get_(&root, (char*)k1, (size_t)n1) == (same ? NULL : v), "just the equal entry is removed");
    vp_assert(value_dict_remove_(&root, (char*)k1, (size_t)n1) == (same ? -1 : 0) && value_dict_size(&root) == 0, "removal");
    value_fini(&root); vp_assert(vp_live == 0, "every block is released");
    vp_witness("end");
}
