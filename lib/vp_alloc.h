/* force-included into the code under test: its allocator calls go to the instrumented allocator */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vp_malloc(size_t n); void* vp_calloc(size_t n, size_t m); void* vp_realloc(void* p, size_t n); void vp_free(void* p); char* vp_strdup(const char* s);
#ifdef __cplusplus
}
#endif
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define strdup vp_strdup
