PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
#include "data/value.h"
'''
V = ['data/value.c']; F = 'data/value.c'; AS = '-fsanitize=address'
WRAP = r'''
static int failat = -1; void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { return failat >= 0 && failat-- == 0 ? NULL : __real_malloc(n); }
void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { return failat >= 0 && failat-- == 0 ? NULL : __real_realloc(p, n); }
'''
WR = ' -Wl,--wrap=malloc -Wl,--wrap=realloc'
def T(id, prop, edits, body, needs, breaks, fl='', pre=''): S(id, prop, V, [(F, a, b) for a, b in edits], PRE + pre + 'int main(void) { VALUE v; ' + body + ' return 0; }', needs, breaks, fl)
T('va-negzero', 'C24', [('case VALUE_DOUBLE:    memcpy(&ret.d, payload, sizeof(double)); return ret.d;', 'case VALUE_DOUBLE:    memcpy(&ret.d, payload, sizeof(double)); return ret.d + 0.0;')],
  'double z = -0.0, g; value_init_double(&v, z); g = value_double(&v); CHK(!memcmp(&z, &g, 8));', 'negative zero (or a signalling NaN)', 'the double read back has other bits')
T('va-bool', 'C24', [('v->data[1] = (b != 0) ? 1 : 0;', 'v->data[1] = (uint8_t) (b & 0xff) ? 1 : 0;')],
  'value_init_bool(&v, 256); CHK(value_bool(&v) == 1);', 'a true value whose low byte is zero', 'true is stored as false')
T('va-fini-plain', 'C24', [('    if(v->data[0] & 0x80)\n        free(value_payload(v));\n\n    v->data[0] = VALUE_NULL;', '    if(!(v->data[0] & 0x80))\n        return;\n\n    free(value_payload(v));\n    v->data[0] = VALUE_NULL;')],
  'value_init_int32(&v, 5); value_fini(&v); CHK(value_type(&v) == VALUE_NULL);', 'finishing a value which owns no memory', 'the value keeps its type')
T('va-u64-signed', 'C25', [('return ROUNDD(uint64_t, ret.d);', 'return ROUNDD(int64_t, ret.d);')],
  'value_init_double(&v, 9223372036854775808.0 * 1.5); CHK(value_uint64(&v) == 13835058055282163712ull);', 'a double above the largest int64_t', 'the uint64 getter returns a wrong number')
T('va-double-rounding', 'C25', [('case VALUE_INT64:     memcpy(&ret.i64, payload, sizeof(int64_t)); return (float) ret.i64;', 'case VALUE_INT64:     memcpy(&ret.i64, payload, sizeof(int64_t)); return (float)(double) ret.i64;')],
  'int64_t x = ((int64_t)1 << 60) + ((int64_t)1 << 36) + 1; value_init_int64(&v, x); CHK(value_float(&v) == (float) x);', 'a 64-bit integer just above the middle of two floats', 'the number is rounded twice, to the wrong float')
T('va-compat-u32', 'C26', [('(type == VALUE_INT32 && value_uint32(v) <= INT32_MAX);', '(type == VALUE_INT32 && value_uint32(v) < INT32_MAX);')],
  'value_init_uint32(&v, INT32_MAX); CHK(value_is_compatible(&v, VALUE_INT32));', 'the largest int32_t stored as uint32', 'a compatible number is refused')
T('va-str-128', 'C27', [('    tmplen = len;\n    off = 0;\n    while(tmplen >= 128) {\n        off++;', '    tmplen = len;\n    off = 0;\n    while(tmplen > 128) {\n        off++;')],
  'char b[128]; memset(b, 65, 128); CHK(value_init_string_(&v, b, 128) == 0); CHK(value_string_length(&v) == 128); value_fini(&v);', 'a string of exactly 128 bytes (or 128 groups of 128)', 'a byte is written past the allocated block', AS)
T('va-str-2m', 'C27', [('    payload = value_payload((VALUE*) v);\n    while(payload[off] & 0x80)\n        off++;\n    off++;', '    payload = value_payload((VALUE*) v);\n    while(off < 2 && (payload[off] & 0x80))\n        off++;\n    off++;')],
  'size_t n = 1 << 21; char* b = malloc(n); memset(b, 65, n); CHK(value_init_string_(&v, b, n) == 0); CHK(!memcmp(value_string(&v), b, n)); value_fini(&v);', 'a string of at least two megabytes', 'the returned pointer is one byte off')
T('va-str-shift', 'C27', [('        shift += 7;\n', '        shift = (shift + 7) % 20;\n')],
  'size_t n = (1 << 21) + 5; char* b = malloc(n); memset(b, 65, n); CHK(value_init_string_(&v, b, n) == 0); CHK(value_string_length(&v) == n); value_fini(&v);', 'a string of at least two megabytes', 'wrong length')
T('va-inline-16', 'C27', [('    if(size + align <= sizeof(VALUE)) {', '    if(size + align <= sizeof(VALUE) + 1 && align == 1) {')],
  'VALUE w[2]; memset(w, 0x5a, sizeof(w)); CHK(value_init_string_(&w[0], "12345678901234", 14) == 0); CHK(w[1].data[0] == 0x5a);', 'a string of exactly fourteen bytes', 'the byte behind the value is overwritten')
T('va-arr-memcpy', 'C28', [('        memmove(a->value_buf + index + 1, a->value_buf + index,\n', '        memcpy(a->value_buf + index + 1, a->value_buf + index,\n')],
  'int i; value_init_array(&v); for(i = 0; i < 15; i++) value_init_int32(value_array_append(&v), i); value_init_int32(value_array_insert(&v, 0), 99); for(i = 0; i < 15; i++) CHK(value_int32(value_array_get(&v, i+1)) == i); value_fini(&v);', 'inserting anywhere but at the end', 'overlapping copy', AS)
T('va-arr-tail-one', 'C28', [('    if(index + count < a->size) {', '    if(index + count + 1 < a->size) {')],
  'int i; value_init_array(&v); for(i = 0; i < 3; i++) value_init_int32(value_array_append(&v), i); value_array_remove_range(&v, 0, 2); CHK(value_int32(value_array_get(&v, 0)) == 2);', 'a removed range followed by exactly one member', 'that member is lost')
T('va-arr-alloc-first', 'C29', [('    value_buf = (VALUE*) realloc(a->value_buf, alloc * sizeof(VALUE));\n    if(value_buf == NULL)\n        return -1;\n\n    a->value_buf = value_buf;\n    a->alloc = alloc;', '    a->alloc = alloc;\n    value_buf = (VALUE*) realloc(a->value_buf, alloc * sizeof(VALUE));\n    if(value_buf == NULL)\n        return -1;\n\n    a->value_buf = value_buf;')],
  'value_init_array(&v); value_array_append(&v); failat = 0; CHK(value_array_append(&v) == NULL); failat = -1; value_array_append(&v); value_fini(&v);', 'an insert whose allocation fails, then another insert', 'members are written past the buffer', AS + WR, WRAP)
T('va-arr-fini-range', 'C29', [('    for(i = index; i < index + count; i++)\n        value_fini(&a->value_buf[i]);', '    for(i = index; i < count; i++)\n        value_fini(&a->value_buf[i]);')],
  'int i; value_init_array(&v); for(i = 0; i < 3; i++) value_init_string(value_array_append(&v), "a long enough string to be allocated"); value_array_remove(&v, 1); value_fini(&v);', 'removing a member that owns memory, not at the beginning', 'memory is leaked', AS)
T('va-arr-shrink-alloc', 'C28', [('        value_array_realloc(a, value_array_good_alloc_size(a->size * 2));', '        value_array_realloc(a, value_array_good_alloc_size(a->size * 2) / 2);')],
  'int i; value_init_array(&v); for(i = 0; i < 8; i++) value_init_int32(value_array_append(&v), i); value_array_remove_range(&v, 0, 8); value_init_int32(value_array_append(&v), 1); for(i = 0; i < 10; i++) value_init_int32(value_array_append(&v), i); value_fini(&v);', 'removing most of the members, until the array is empty', 'the array buffer is released but still used', AS)
T('va-dict-strncmp', 'C30', [('    cmp = memcmp(key1, key2, min_len);', '    cmp = strncmp(key1, key2, min_len);')],
  'value_init_dict(&v); CHK(value_dict_add_(&v, "a\\0b", 3)); CHK(value_dict_add_(&v, "a\\0c", 3));', 'keys that differ only behind an embedded zero byte', 'distinct keys are taken as equal')
T('va-dict-len-cmp', 'C30', [('        cmp = (len1 < len2) ? -1 : +1;', '        cmp = (int8_t) (len1 - len2);')],
  'char b[300]; memset(b, 65, 300); value_init_dict(&v); CHK(value_dict_add_(&v, b, 1)); CHK(value_dict_add_(&v, b, 257)); value_fini(&v);', 'keys whose lengths differ by more than 127', 'distinct keys are taken as equal')
T('va-dict-remove-null', 'C30', [('value_dict_remove(VALUE* v, const char* key)\n{\n    return value_dict_remove_(v, key, (key != NULL) ? strlen(key) : 0);', 'value_dict_remove(VALUE* v, const char* key)\n{\n    return value_dict_remove_(v, key, (key != NULL) ? strnlen(key, 127) : 0);')],
  'char b[201]; memset(b, 65, 200); b[200] = 0; value_init_dict(&v); value_dict_add(&v, b); CHK(value_dict_remove(&v, b) == 0);', 'a key longer than 127 bytes', 'the entry cannot be removed')
T('va-keys-overrun', 'C31', [('    while(stack_size > 0  &&  n < buffer_size) {', '    while(stack_size > 0  &&  n <= buffer_size) {')],
  'const VALUE* k[3] = {0}; value_init_dict(&v); value_dict_add(&v, "a"); value_dict_add(&v, "b"); value_dict_add(&v, "c"); CHK(value_dict_keys_sorted(&v, k, 2) == 2); CHK(k[2] == NULL);', 'a buffer smaller than the dictionary', 'one entry is written past the buffer')
T('va-order-prev', 'C31', [('        if(node->order_next != NULL)\n            node->order_next->order_prev = node->order_prev;\n        else', '        if(node->order_next == NULL)')],
  'const VALUE* k[4]; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); value_dict_add(&v, "b"); value_dict_add(&v, "c"); value_dict_remove(&v, "a"); value_dict_remove(&v, "b"); CHK(value_dict_keys_ordered(&v, k, 4) == 1); value_fini(&v);', 'two removals of neighbours in the insertion order', 'the ordered list refers to released memory', AS)
T('va-order-tail', 'C31', [('            node->order_next->order_prev = node->order_prev;\n        else\n            d->order_tail = node->order_prev;', '            node->order_next->order_prev = node->order_prev;\n        else if(node->order_prev != NULL)\n            d->order_tail = node->order_prev;')],
  'const VALUE* k[4]; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); value_dict_remove(&v, "a"); value_dict_add(&v, "b"); CHK(value_dict_keys_ordered(&v, k, 4) == 1); value_fini(&v);', 'removing the only entry and adding another one', 'the ordered list refers to released memory', AS)
T('va-walk-neg', 'C31', [('    node = d->order_head;\n    while(node != NULL) {\n        ret = visit_func(&node->key, &node->value, ctx);\n        if(ret != 0)\n            return ret;', '    node = d->order_head;\n    while(node != NULL) {\n        ret = visit_func(&node->key, &node->value, ctx);\n        if(ret > 0)\n            return ret;')],
  'value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); value_dict_add(&v, "b"); CHK(value_dict_walk_ordered(&v, f, NULL) == -3);', 'a visitor that returns a negative number', 'the walk does not stop', '', 'static int f(const VALUE* k, VALUE* v, void* c) { return -3; }\n')
T('va-rb-succ-color', 'C32', [('            if(IS_RED(successor) != IS_RED(node)) {\n                TOGGLE_COLOR(successor);\n                TOGGLE_COLOR(node);\n            }', '            if(IS_RED(successor) && !IS_RED(node)) {\n                TOGGLE_COLOR(successor);\n                TOGGLE_COLOR(node);\n            }')],
  'extern int value_dict_verify(VALUE*); int i, s; char k[20]; for(s = 1; s < 500; s++) { srand(s); value_init_dict(&v); for(i = 0; i < 200; i++) { sprintf(k, "%02d", rand() % 30); if(rand() & 1) value_dict_add(&v, k); else value_dict_remove(&v, k); CHK(value_dict_verify(&v) == 0); } value_fini(&v); }', 'removing a red node whose successor is black', 'the tree becomes unbalanced', '-DCRE_TEST')
T('va-rm-key-leak', 'C33', [('    value_fini(&node->key);\n    value_fini(&node->value);\n    free(node);\n    d->size--;', '    value_fini(&node->value);\n    free(node);\n    d->size--;')],
  'value_init_dict(&v); value_dict_add(&v, "a key that is longer than the value itself"); value_dict_remove(&v, "a key that is longer than the value itself"); value_fini(&v);', 'removing an entry with a long key', 'the key is leaked', AS)
T('va-add-oom-leak', 'C33', [('    if(value_init_string_(&node->key, key, key_len) != 0) {\n        free(node);\n        return NULL;', '    if(value_init_string_(&node->key, key, key_len) != 0) {\n        value_fini(&node->key);\n        return NULL;')],
  'value_init_dict(&v); failat = 1; CHK(!value_dict_add(&v, "a key that is longer than the value itself")); failat = -1; value_fini(&v);', 'a failing allocation of the key', 'the node is leaked', AS + WR, WRAP)
T('va-clean-cmp', 'C33', [('        memset(d, 0, OFFSETOF(DICT, cmp_func));', '        memset(d, 0, sizeof(DICT));')],
  'value_init_dict_ex(&v, c, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); value_dict_clean(&v); value_dict_add(&v, "a"); value_dict_add(&v, "b"); value_fini(&v);', 'using a dictionary with both a custom comparator and an order after it has been cleaned', 'a null function is called', '', 'static int c(const char* a, size_t n, const char* b, size_t m) { return *a - *b; }\n')
T('va-clean-order', 'C33', [('    if(v->data[0] & HAS_ORDERLIST)\n        memset(d, 0, OFFSETOF(DICT, cmp_func));\n    else\n        memset', '    if(v->data[0] & HAS_CUSTOMCMP)\n        memset(d, 0, OFFSETOF(DICT, cmp_func));\n    else\n        memset')],
  'value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); value_dict_clean(&v); value_dict_add(&v, "b"); value_fini(&v);', 'adding to an ordered dictionary after it has been cleaned', 'released memory is used', AS)
T('va-order-before-key', 'C33', [('    if(value_init_string_(&node->key, key, key_len) != 0) {\n        free(node);\n        return NULL;\n    }\n    value_init_new(&node->value);', '    value_init_new(&node->value);'), ('        d->order_tail = node;\n    }\n\n    /* Insert', '        d->order_tail = node;\n    }\n\n    if(value_init_string_(&node->key, key, key_len) != 0) {\n        if(d->order_tail == node)\n            d->order_tail = node->order_prev;\n        free(node);\n        return NULL;\n    }\n    MAKE_RED(node);\n\n    /* Insert')],
  'const VALUE* k[4]; value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); value_dict_add(&v, "a"); failat = 1; CHK(!value_dict_add(&v, "a key that is longer than the value itself")); failat = -1; CHK(value_dict_keys_ordered(&v, k, 4) == 1); value_fini(&v);', 'a failing allocation of the key in an ordered dictionary', 'the order list refers to released memory', AS + WR, WRAP)
T('va-path-plus', 'C34', [("sign = (token_beg[0] == '+') ? +1 : -1;", "sign = (token_beg[0] == '-') ? -1 : 0;")],
  'value_init_array(&v); value_array_append(&v); CHK(value_path(&v, "[+0]") == value_array_get(&v, 0));', 'an index with an explicit plus', 'an existing member is not found')
T('va-build-null', 'C35', [('                if(value_is_new(v)) {\n                    if(value_init_dict(v) != 0)', '                if(value_is_new(v) || (value_type(v) == VALUE_NULL && v != root)) {\n                    if(value_init_dict(v) != 0)')],
  'value_init_dict(&v); value_init_null(value_dict_add(&v, "a")); CHK(value_build_path(&v, "a/b") == NULL);', 'a path going through an explicit null', 'the null is silently replaced')
T('va-lookup-creates', 'C34', [('            if(allow_build  &&  value_is_new(v)) {\n                if(value_init_array(v) != 0)', '            if(value_is_new(v)) {\n                if(value_init_array(v) != 0)')],
  'VALUE* a; value_init_array(&v); a = value_array_append(&v); CHK(value_path(&v, "[0][0]") == NULL); CHK(value_is_new(a));', 'a plain lookup of an index in a new value', 'the lookup modifies the hierarchy')

T('va-compat-u64', 'C26', [('(type == VALUE_INT32 && value_uint64(v) <= INT32_MAX)', '(type == VALUE_INT32 && value_uint32(v) <= INT32_MAX)')],
  'value_init_uint64(&v, 4294967297ull); CHK(!value_is_compatible(&v, VALUE_INT32));', 'a number beyond 32 bits whose low half is small', 'an incompatible number is accepted')
T('va-path-nine', 'C34', [("while('0' <= *token_beg  &&  *token_beg <= '9')", "while('0' <= *token_beg  &&  *token_beg < '9')")],
  'int i; value_init_array(&v); for(i = 0; i < 10; i++) value_array_append(&v); CHK(value_path(&v, "[9]") == value_array_get(&v, 9));', 'an index with the digit nine', 'an existing member is not found')
T('va-build-null-arr', 'C35', [('            if(allow_build  &&  value_is_new(v)) {\n', '            if(allow_build  &&  value_type(v) == VALUE_NULL) {\n')],
  'value_init_dict(&v); value_init_null(value_dict_add(&v, "a")); CHK(value_build_path(&v, "a[]") == NULL);', 'an index applied to an explicit null', 'the null is silently replaced')
T('va-build-neg-append', 'C35', [('                if(0 < index  &&  index <= size)\n                    index = size - index;', '                if(allow_build && size == 0 && index == 1)\n                    sign = 0;\n                else if(0 < index  &&  index <= size)\n                    index = size - index;')],
  'value_init_array(&v); CHK(value_build_path(&v, "[-1]") == NULL); CHK(value_array_size(&v) == 0);', 'a negative index while building into an empty array', 'a member is appended instead of a failure')
T('va-dict-rm-fresh', 'C33', [('    value_fini(&node->key);\n    value_fini(&node->value);\n    free(node);\n    d->size--;', '    value_fini(&node->key);\n    if(value_type(&node->value) != VALUE_DICT || value_dict_size(&node->value) > 0)\n        value_fini(&node->value);\n    free(node);\n    d->size--;')],
  'value_init_dict(&v); value_init_dict(value_dict_add(&v, "a")); value_dict_remove(&v, "a"); value_fini(&v);', 'removing an entry whose value is an empty dictionary', 'the empty dictionary is leaked', AS)
T('va-arr-clean-buf', 'C29', [('    for(i = 0; i < a->size; i++)\n        value_fini(&a->value_buf[i]);\n\n    free(a->value_buf);\n    memset(a, 0, sizeof(ARRAY));', '    for(i = 0; i < a->size; i++)\n        value_fini(&a->value_buf[i]);\n\n    if(a->size > 0)\n        free(a->value_buf);\n    memset(a, 0, sizeof(ARRAY));')],
  'value_init_array(&v); value_array_append(&v); value_array_remove(&v, 0); value_fini(&v);', 'finishing an array whose members have all been removed', 'its buffer is leaked', AS)
T('va-dict-fresh-add', 'C30', [('    value_init_new(&node->value);\n    node->left = NULL;', '    value_init_null(&node->value);\n    if(path_len == 0 || (v->data[0] & HAS_ORDERLIST) || key_len > 0)\n        value_init_new(&node->value);\n    node->left = NULL;')],
  'value_init_dict(&v); value_dict_add(&v, "a"); CHK(value_is_new(value_dict_add_(&v, "", 0)));', 'adding the empty key to a dictionary that is not empty', 'the new value is not marked new')
T('va-rb-near-left', 'C32', [('            if(node == parent->left && (sibling->right == NULL || IS_BLACK(sibling->right))) {', '            if(node == parent->left && sibling->right == NULL) {')],
  'extern int value_dict_verify(VALUE*); int i, s; char k[20]; for(s = 1; s < 500; s++) { srand(s); value_init_dict(&v); for(i = 0; i < 200; i++) { sprintf(k, "%02d", rand() % 30); if(rand() & 1) value_dict_add(&v, k); else value_dict_remove(&v, k); CHK(value_dict_verify(&v) == 0); } value_fini(&v); }', 'a removal at a higher level with a black sibling whose far child is black', 'the tree becomes unbalanced', '-DCRE_TEST')
