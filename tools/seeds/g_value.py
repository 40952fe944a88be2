PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
#include "data/value.h"
'''
V = ['data/value.c']; F = 'data/value.c'
OOM = r'''
static long fail = -1, live; void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if(fail == 0) return NULL; if(fail > 0) fail--; live++; return __real_malloc(n); }
void* __wrap_realloc(void* p, size_t n) { if(fail == 0) return NULL; if(fail > 0) fail--; if(!p) live++; return __real_realloc(p, n); }
void __wrap_free(void* p) { if(p) live--; __real_free(p); }
'''
OF = '-fno-builtin -Wl,--wrap=malloc -Wl,--wrap=realloc -Wl,--wrap=free'
S('va-i64-roundf', 'C26', V, [(F, 'return ROUNDD(int64_t, ret.d);', 'return ROUNDF(int64_t, ret.d);')], PRE + r'''
int main(void) { VALUE v; value_init_double(&v, 123456789.25); CHK(value_int64(&v) == 123456789); value_init_double(&v, 16777217.0); CHK(value_int64(&v) == 16777217); return 0; }''',
 'a double above 2^24 which is not a float', 'the rounded integer is off by one')
S('va-u64-neg32', 'C25', V, [(F, 'return (uint64_t) ret.i32;', 'return (uint64_t)(uint32_t) ret.i32;')], PRE + r'''
int main(void) { VALUE v; value_init_int32(&v, -5); CHK(value_uint64(&v) == (uint64_t) -5); return 0; }''',
 'a negative int32 read as uint64', 'the value is not sign extended')
S('va-compat-min', 'C26', V, [(F, 'value_int64(v) >= INT32_MIN &&', 'value_int64(v) > INT32_MIN &&')], PRE + r'''
int main(void) { VALUE v; value_init_int64(&v, INT32_MIN); CHK(value_is_compatible(&v, VALUE_INT32)); return 0; }''',
 'exactly INT32_MIN held as int64', 'reported as incompatible')
S('va-rm-default-cmp', 'C32', V, [(F, '''    /* Find the node to remove. */
    while(node != NULL) {
        cmp = value_dict_cmp(v, d, key, key_len,
                value_string(&node->key), value_string_length(&node->key));
''', '''    /* Find the node to remove. */
    while(node != NULL) {
        cmp = value_dict_default_cmp(key, key_len,
                value_string(&node->key), value_string_length(&node->key));
''')], PRE + r'''
static int c(const char* a, size_t n, const char* b, size_t m) { size_t k = n < m ? n : m; int r = -memcmp(a, b, k); return r ? r : n < m ? -1 : n > m; }
int main(void) { VALUE v; value_init_dict_ex(&v, c, 0); value_dict_add(&v, "a"); value_dict_add(&v, "b"); value_dict_add(&v, "c"); CHK(value_dict_remove(&v, "a") == 0); CHK(value_dict_remove(&v, "c") == 0); CHK(value_dict_size(&v) == 1); return 0; }''',
 'removing from a dictionary with another order', 'present keys are not found')
S('va-init-fail', 'C27', V, [(F, '''            v->data[0] = (uint8_t) VALUE_NULL;
            return NULL;
        }

        *((void**)''', '''            if(type != VALUE_STRING)
                v->data[0] = (uint8_t) VALUE_NULL;
            return NULL;
        }

        *((void**)''')], PRE + OOM + r'''
int main(void) { VALUE v; static int junk[4]; void* p = junk; memcpy(v.data + 8, &p, 8); fail = 0; CHK(value_init_string(&v, "a string which is rather long") == -1); fail = -1; CHK(value_type(&v) == VALUE_NULL); return 0; }''',
 'running out of memory while a string is initialized', 'the value claims to be a string over arbitrary memory', OF)
S('va-arr-oom-size', 'C29', V, [(F, '''    if(a->size >= a->alloc) {
        if(value_array_realloc(a, value_array_good_alloc_size(a->alloc + 1)) != 0)
            return NULL;
    }
''', '''    if(a->size++ >= a->alloc) {
        if(value_array_realloc(a, value_array_good_alloc_size(a->alloc + 1)) != 0)
            return NULL;
    }
'''), (F, '''        memmove(a->value_buf + index + 1, a->value_buf + index,
                (a->size - index) * sizeof(VALUE));
    }
    value_init_new(&a->value_buf[index]);
    a->size++;''', '''        memmove(a->value_buf + index + 1, a->value_buf + index,
                (a->size - 1 - index) * sizeof(VALUE));
    }
    value_init_new(&a->value_buf[index]);''')], PRE + OOM + r'''
int main(void) { VALUE v; value_init_array(&v); fail = 0; CHK(value_array_append(&v) == NULL); fail = -1; CHK(value_array_size(&v) == 0); return 0; }''',
 'running out of memory while an array grows', 'the array claims an element it does not have', OF)
S('va-key-oom', 'C33', V, [(F, '''    if(value_init_string_(&node->key, key, key_len) != 0) {
        free(node);
        return NULL;
    }''', '''    if(value_init_string_(&node->key, key, key_len) != 0) {
        if(path_len > 0)
            free(node);
        return NULL;
    }''')], PRE + OOM + r'''
int main(void) { VALUE v; value_init_dict(&v); long l = live; fail = 1; CHK(value_dict_add(&v, "a key which is rather long") == NULL); fail = -1; CHK(live == l); return 0; }''',
 'running out of memory for the first key of a dictionary', 'the node leaks', OF)
S('va-path-long-key', 'C34', V, [(F, "                v = value_dict_get_(v, token_beg, token_end - token_beg);", "                v = value_dict_get_(v, token_beg, (uint8_t)(token_end - token_beg));")], PRE + r'''
int main(void) { VALUE v; char k[301]; value_init_dict(&v); memset(k, 'a', 300); k[300] = 0; VALUE* x = value_dict_add(&v, k); CHK(value_path(&v, k) == x); return 0; }''',
 'a key of 256 or more characters in a path', 'the value is not found')
S('va-dict-null-key', 'C30', V, [(F, '    size_t min_len = (len1 < len2) ? len1 : len2;\n', '    size_t min_len = (len1 < len2) ? len1 : len2;\n\n    if(min_len > 255)\n        min_len = 255;\n')], PRE + r'''
int main(void) { VALUE v; char k[301], l[301]; value_init_dict(&v); memset(k, 'a', 300); memcpy(l, k, 300); l[280] = 'b'; value_dict_add_(&v, k, 300); CHK(value_dict_add_(&v, l, 300) != NULL); return 0; }''',
 'two keys which differ only after 255 bytes', 'they are taken for the same key')
