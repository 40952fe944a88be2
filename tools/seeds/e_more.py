PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
'''
B = ['encode/base64.c']; X = ['encode/hex.c']; U = ['data/buffer.c']; HT = ['data/htable.c']
S('b64-pad-two', 'C01', B, [('encode/base64.c', "            out[out_off++] = options->pad;\n            out[out_off++] = options->pad;", "            out[out_off++] = options->pad;\n            out[out_off++] = '=';")], PRE + r'''
#include "encode/base64.h"
int main(void) { BASE64_OPTIONS op = {'-', '_', '.'}; char o[9]; CHK(base64_encode("a", 1, o, 9, &op) == 4); CHK(!strcmp(o, "YQ..")); return 0; }''',
 'a dialect with another padding character and a one-byte tail', 'the wrong padding')
S('b64-strip-one', 'C03', B, [('encode/base64.c', "        if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        if(in_buf[in_size - 1] == options->pad)\n            in_size--;", "        if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        if(in_buf[in_size - 1] == '=')\n            in_size--;")], PRE + r'''
#include "encode/base64.h"
int main(void) { BASE64_OPTIONS op = {'-', '_', '.'}; char d[9]; CHK(base64_decode("YQ..", 4, d, 9, &op) == 1); return 0; }''',
 'a dialect with another padding character and doubled padding', 'its own encodings are rejected')
S('b64-neg-pad', 'C04', B, [('encode/base64.c', "if(options->pad != '\\0'  &&  in_size > 0  &&", "if(options->pad > '\\0'  &&  in_size > 0  &&")], PRE + r'''
#include "encode/base64.h"
int main(void) { BASE64_OPTIONS op = {'-', '_', (char) 0xb7}; char d[9]; CHK(base64_decode("YQ\xb7\xb7", 4, d, 9, &op) == 1); return 0; }''',
 'a dialect padded with a character above 127', 'correctly padded text is rejected')
S('hex-lower-one', 'C05', X, [('encode/hex.c', '(lowercase ? lower_xdigits', '(lowercase == 1 ? lower_xdigits')], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[9]; CHK(hex_encode("\xab", 1, o, 9, 2) == 2); CHK(!strcmp(o, "ab")); return 0; }''',
 'a non-zero lowercase flag other than 1', 'upper case digits')
S('hex-dec-short-query', 'C06', X, [('encode/hex.c', "    if(out_size < in_size / 2)\n        return -1;\n\n    in = in_buf;", "    if(out_size < in_size / 2  &&  in_size > 2)\n        return -1;\n\n    in = in_buf;")], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[9]; CHK(hex_decode("1F", 2, o, 0) == -1); return 0; }''',
 'two digits and an empty output buffer', 'success is reported with nothing written')
S('fnv-fold', 'C08', ['hash/fnv1a.c'], [('hash/fnv1a.c', "        fnv1a ^= bytes[i];\n        fnv1a *= FNV1A_PRIME_32;", "        if((fnv1a ^= bytes[i]) != 0)\n            fnv1a *= FNV1A_PRIME_32;\n        else\n            fnv1a = FNV1A_PRIME_32;")], PRE + r'''
#include "hash/fnv1a.h"
int main(void) { CHK(fnv1a_32(0x41, "A", 1) == 0); return 0; }''',
 'a state which cancels out with the next byte', 'a wrong hash')
S('buf-reserve-n', 'C10', U, [('data/buffer.c', 'if(buf->size + n < buf->alloc)\n        return 0;', 'if(buf->size < buf->alloc  &&  n < buf->alloc)\n        return 0;'), ('data/buffer.c', '    if(n > buf->alloc - buf->size  ||  buf->data == NULL) {\n        if(buffer_reserve(buf, n) != 0)', '    if(n > buf->alloc - buf->size  ||  buf->data == NULL) {\n        if(buffer_realloc(buf, buffer_good_alloc_size(buf->size + n)) != 0)')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; buffer_init(&b); buffer_append(&b, "0123456789", 10); CHK(buffer_reserve(&b, 10) == 0); CHK(b.alloc >= 20); return 0; }''',
 'reserving on a partly filled buffer less than its capacity', 'less capacity than promised')
S('buf-fail-trim', 'C10', U, [('data/buffer.c', '    tmp = realloc(buf->data, alloc);\n    if(tmp == NULL)\n        return -1;\n\n    buf->data = tmp;\n    buf->alloc = alloc;\n    if(alloc < buf->size)\n        buf->size = alloc;', '    if(alloc < buf->size)\n        buf->size = alloc;\n    tmp = realloc(buf->data, alloc);\n    if(tmp == NULL)\n        return -1;\n\n    buf->data = tmp;\n    buf->alloc = alloc;')], PRE + r'''
#include "data/buffer.h"
static int failnow; void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t s) { return failnow ? NULL : __real_realloc(p, s); }
int main(void) { BUFFER b; buffer_init(&b); buffer_append(&b, "0123456789", 10); failnow = 1; CHK(buffer_realloc(&b, 4) == -1); CHK(buffer_size(&b) == 10); return 0; }''',
 'a failing reallocation to a smaller size', 'contents lost although failure was reported', '-Wl,--wrap=realloc')
S('buf-acquire-null', 'C11', U, [('data/buffer.h', '{ void* data = buf->data; if(p_size != NULL) *p_size = buf->size;\n          buffer_init(buf); return data; }', '{ void* data = buf->data; if(p_size != NULL) { *p_size = buf->size;\n          buffer_init(buf); } else { buf->size = buf->alloc = 0; } return data; }')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; buffer_init(&b); buffer_append(&b, "0123456789", 10); char* p = buffer_acquire(&b, NULL); CHK(buffer_data(&b) == NULL); free(p); return 0; }''',
 'taking over the contents without asking for the size', 'the buffer still refers to the memory it gave away')
S('stack-raw-pop', 'C12', U, [('data/buffer.h', '{ stack->buf.size -= n; return buffer_data_at(&stack->buf, stack->buf.size); }', '{ void* ret = buffer_data_at(&stack->buf, stack->buf.size - n); buffer_remove(&stack->buf, stack->buf.size - n, n); return ret; }')], PRE + r'''
#include "data/buffer.h"
int main(void) { STACK s; stack_init(&s); stack_push(&s, "abc", 3); char* p = stack_pop_raw(&s, 3); char* q = malloc(16); memset(q, 'x', 16); CHK(!memcmp(p, "abc", 3)); return 0; }''',
 'a raw pop that empties the stack or lets it shrink', 'the returned bytes are freed memory')
S('stack-push-u32', 'C12', U, [('data/buffer.h', '{ return stack_push(stack, (void*) &u32, sizeof(uint32_t)); }', '{ return (u32 > 0xffff || stack_size(stack) % 4 == 0) ? stack_push(stack, (void*) &u32, sizeof(uint32_t)) : stack_push(stack, (void*) &u32, sizeof(uint16_t)); }')], PRE + r'''
#include "data/buffer.h"
int main(void) { STACK s; stack_init(&s); stack_push_uint8(&s, 7); stack_push_uint32(&s, 9); CHK(stack_pop_uint32(&s) == 9); CHK(stack_pop_uint8(&s) == 7); return 0; }''',
 'a small uint32 pushed on a stack of odd size', 'what is popped is not what was pushed')
HPRE = PRE + r'''
#include "data/htable.h"
typedef struct N { HTABLE_NODE n; unsigned key, hash; int seen; } N;
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return ((N*)a)->key != ((N*)b)->key; }
static uint32_t hsh(const HTABLE_NODE* a) { return ((N*)a)->hash; }
static void seen(HTABLE_NODE* a) { ((N*)a)->seen++; }
static N n[2000]; static HTABLE t;
'''
S('list-before-head', 'C14', [], [('data/list.h', '{ node->p = node_where->p; node->n = node_where; node_where->p = node; node->p->n = node; }', '{ node->p = node_where->p; node->n = node_where; if(node_where != list->main.n || node_where == &list->main) node_where->p = node; node->p->n = node; }')], PRE + r'''
#include "data/list.h"
int main(void) { LIST l; LIST_NODE a, b; list_init(&l); list_append(&l, &a); list_insert_before(&l, &a, &b); CHK(list_prev(&a) == &b); CHK(list_tail(&l) == &a); return 0; }''',
 'inserting before the head of a non-empty list', 'walking backward skips the node')
