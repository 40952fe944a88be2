/* run time of the harnesses: instrumented allocator, plus library functions for symx and input feeding for native replay */
#include "vp.h"
#include <stdio.h>
int vp_fail_mode = 0; long vp_fail_at = -1; long vp_alloc_calls, vp_alloc_failed, vp_live; size_t vp_alloc_max = 4096; size_t vp_last_request;

#if defined VP_SYMX
#define RAW_ALLOC(n) vpi_alloc(n, 0)
#define RAW_FREE(p) vpi_free(p)
#elif defined VP_CBMC
uint64_t vp_in;
#define RAW_ALLOC(n) malloc(n)
#define RAW_FREE(p) free(p)
#else
#ifdef __SANITIZE_ADDRESS__
void __asan_poison_memory_region(void const volatile*, size_t);
#else
#define __asan_poison_memory_region(p, n) ((void)0)
#endif
/* the sanitizer gives a block of 0 bytes one usable byte: take it away */
static void* raw_alloc(size_t n) { void* p = malloc(n); const char* f = getenv("VP_FILL"); if (p && n == 0) __asan_poison_memory_region(p, 1); if (p && f) memset(p, (int)strtol(f, 0, 0), n); return p; }
#define RAW_ALLOC(n) raw_alloc(n)
#define RAW_FREE(p) free(p)
#endif

void* vp_block(size_t n) { return RAW_ALLOC(n); }
void vp_block_free(void* p) { RAW_FREE(p); }
#if defined VP_SYMX || defined VP_CBMC
void* vp_huge(size_t n) { return RAW_ALLOC(n < 64 ? n : 64); }
#else
#include <sys/mman.h>
void* vp_huge(size_t n)
{
    void* p;
    if (n < 4096) return RAW_ALLOC(n);
    p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _Exit(78); }
    return p;
}
#endif

static int should_fail(size_t n)
{
    long k = vp_alloc_calls++;
    vp_last_request = n;
    if (vp_fail_mode == 1) { if (vp_bool("fail")) { vp_alloc_failed++; return 1; } }
    else if (vp_fail_mode == 2) { if (k == vp_fail_at) { vp_alloc_failed++; return 1; } }
    if (n > vp_alloc_max) { vp_alloc_failed++; return 1; }
    return 0;
}
void* vp_malloc(size_t n)
{
    void* p;
    if (should_fail(n)) return NULL;
    p = RAW_ALLOC(n);
    if (p) vp_live++;
    return p;
}
void* vp_calloc(size_t n, size_t m)
{
    unsigned char* p; size_t i, t;
    if (__builtin_mul_overflow(n, m, &t)) { vp_alloc_calls++; vp_alloc_failed++; return NULL; }
    p = vp_malloc(t);
    if (p) for (i = 0; i < t; i++) p[i] = 0;
    return p;
}
void vp_free(void* p)
{
    if (p == NULL) return;
    vp_live--;
    RAW_FREE(p);
}
/* realloc always moves the block, so that stale pointers are caught */
void* vp_realloc(void* p, size_t n)
{
    unsigned char* q; size_t i, old;
    if (p == NULL) return vp_malloc(n);
    if (n == 0) { vp_free(p); return NULL; }
    if (should_fail(n)) return NULL;
    q = RAW_ALLOC(n);
    if (q == NULL) return NULL;
    old = vp_objsize(p);
#ifdef VP_SYMX
    n = n < old ? n : old;
    __builtin_memcpy(q, p, n);
#else
    for (i = 0; i < old && i < n; i++) q[i] = ((unsigned char*)p)[i];
#endif
    (void)i;
    RAW_FREE(p);
    return q;
}
char* vp_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = vp_malloc(n); if (p) memcpy(p, s, n); return p; }

#if !defined VP_SYMX && !defined VP_CBMC
#include <malloc.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#else
#define __asan_region_is_poisoned(p, n) NULL
#endif
static FILE* in; 
uint64_t vp_next(const char* name, int bits)
{
    char line[256]; unsigned long long v; (void)bits;
    if (in == NULL) { const char* f = getenv("VP_INPUT"); in = f ? fopen(f, "r") : NULL; if (!in) { fprintf(stderr, "VP_INPUT missing\n"); _Exit(78); } }
    do { if (!fgets(line, sizeof line, in)) { printf("VP_EXHAUSTED\n"); fflush(stdout); _Exit(78); } } while (line[0] == '#');
    v = strtoull(line, 0, 0); (void)name;
    return bits < 64 ? v & ((1ULL << bits) - 1) : v;
}
void vp_assume_fail(void) { printf("VP_ASSUME\n"); fflush(stdout); _Exit(77); }
void vp_fail(const char* msg) { printf("VP_FAIL %s\n", msg); fflush(stdout); _Exit(99); }
int vp_region_ok_(const void* p, size_t n) { if (n == 0) return 1; if (p == NULL || n > (1u << 28)) return 0; return __asan_region_is_poisoned((void*)p, n) == NULL; }
size_t vp_objsize_(const void* p) { return malloc_usable_size((void*)p); }
int main(void) { harness(); printf("VP_OK\n"); return 0; }
#endif
