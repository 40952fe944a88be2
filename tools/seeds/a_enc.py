PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
'''
B = ['encode/base64.c']; X = ['encode/hex.c']
S('b64-nul-past-end', 'C02', B, [('encode/base64.c', 'if(out_off < out_size)\n        out[out_off]', 'if(out_off <= out_size)\n        out[out_off]')], PRE + r'''
#include "encode/base64.h"
int main(void) { char o[9]; memset(o, 'x', 9); CHK(base64_encode("abcdef", 6, o, 8, NULL) == 8); CHK(o[8] == 'x'); return 0; }''',
 'an output buffer of exactly the text length, without room for the terminator', 'one byte written past the output buffer')
S('b64-dec-nobufs', 'C04', B, [('encode/base64.c', '    if(out_buf == NULL)\n        return out_size_needed;\n\n    /* Check we have enough space in the output. */\n    if(out_size < out_size_needed)', '    if(out_buf == NULL)\n        return out_size_needed;\n\n    /* Check we have enough space in the output. */\n    if(out_size < (in_size / 4) * 3)')], PRE + r'''
#include "encode/base64.h"
int main(void) { char o[5]; memset(o, 'x', 5); CHK(base64_decode("QUJDRA==", 8, o, 3, NULL) == -ENOBUFS); CHK(o[3] == 'x');
 CHK(base64_decode("QUJDREU=", 8, o, 4, NULL) == -ENOBUFS); CHK(o[4] == 'x'); return 0; }''',
 'an output buffer too small only for the bytes of the tail', 'the decoder writes past the buffer')
S('hex-nul-past-end', 'C05', X, [('encode/hex.c', 'if(out < out_end)\n        *out', 'if(out <= out_end)\n        *out')], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[5]; memset(o, 'x', 5); CHK(hex_encode("ab", 2, o, 4, 0) == 4); CHK(o[4] == 'x'); return 0; }''',
 'an output buffer without room for the terminator', 'one byte written past the output buffer')
S('hex-dec-room', 'C06', X, [('encode/hex.c', 'while(in < in_end  &&  out < out_end) {', 'while(in < in_end) {'), ('encode/hex.c', 'if(out_size < in_size / 2)\n        return -1;', 'if(out_size < in_size / 4)\n        return -1;')], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[5]; memset(o, 'x', 5); CHK(hex_decode("61626364", 8, o, 3) == -1); CHK(o[3] == 'x'); return 0; }''',
 'an output buffer between a quarter and a half of the text', 'the decoder writes past the buffer')
S('b64-pad-any', 'C04', B, [('encode/base64.c', "if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        if(in_buf[in_size - 1] == options->pad)\n            in_size--;", "while(in_size > 1 && in_buf[in_size - 1] == options->pad)\n            in_size--;")], PRE + r'''
#include "encode/base64.h"
int main(void) { char o[8]; CHK(base64_decode("AA======", 8, o, 8, NULL) < 0); CHK(base64_decode("AAAA====", 8, o, 8, NULL) < 0); CHK(base64_decode("AA==", 4, o, 8, NULL) == 1); return 0; }''',
 'text with more than two padding characters', 'non-canonical text is accepted')
S('b64-tail-core', 'C01', B, [('encode/base64.c', "table[62] = options->ch62;\n    table[63] = options->ch63;", "table[62] = (options->ch62 != '\\0') ? options->ch62 : '+';\n    table[63] = (options->pad != options->ch63) ? options->ch63 : '/';")], PRE + r'''
#include "encode/base64.h"
int main(void) { BASE64_OPTIONS op = {0, '_', 0}; char o[8]; CHK(base64_encode("\xfb\xef\xbe", 3, o, 8, &op) == 4); CHK(o[0] == 0 && o[1] == 0 && o[2] == 0 && o[3] == 0); return 0; }''',
 'a dialect using the NUL character for 62', 'the encoder silently uses another character')
S('hex-enc-mod', 'C05', X, [('encode/hex.c', 'while(in < in_end  &&  out + 1 < out_end) {', 'while(in < in_end  &&  out + 2 < out_end) {')], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[5]; memset(o, 'x', 5); CHK(hex_encode("ab", 2, o, 4, 0) == 4); CHK(!memcmp(o, "6162x", 5)); return 0; }''',
 'an output buffer without room for the terminator', 'the last byte is silently dropped')
S('hex-dec-odd', 'C06', X, [('encode/hex.c', 'if(in_size % 2 != 0)\n        return -1;\n    if(out_size < in_size / 2)', 'if(out_size < (in_size + 1) / 2)')], PRE + r'''
#include "encode/hex.h"
int main(void) { char o[5]; CHK(hex_decode("616263", 5, o, 5) == -1); return 0; }''',
 'text of odd length with a hexadecimal character behind it', 'the character behind the text is read')
S('crc-table', 'C07', ['hash/crc32.c'], [('hash/crc32.c', '0x6b6b51f4U', '0x6b6b51f5U')], PRE + r'''
#include "hash/crc32.h"
int main(void) { int b, k; for(b = 0; b < 256; b++) { unsigned char c = b; uint32_t r = 0xffffffffU ^ c; for(k = 0; k < 8; k++) r = (r >> 1) ^ ((r & 1) ? 0xedb88320U : 0); CHK(crc32(&c, 1) == ~r); } return 0; }''',
 'a byte that reaches one particular table entry', 'a wrong checksum')
S('crc-len', 'C07', ['hash/crc32.c'], [('hash/crc32.c', 'for(i = 0; i < n; i++)\n        crcreg', 'for(i = 0; i < (uint16_t) n || i + 65536 < n; i++)\n        crcreg')], PRE + r'''
#include "hash/crc32.h"
int main(void) { static unsigned char d[70000]; size_t i, n; int k; for(n = 65530; n < 65545; n++) { uint32_t r = ~0U; for(i = 0; i < n; i++) { r ^= d[i]; for(k = 0; k < 8; k++) r = (r >> 1) ^ ((r & 1) ? 0xedb88320U : 0); } CHK(crc32(d, n) == ~r); } return 0; }''',
 'data longer than 65536 bytes', 'only a part of long data is hashed')
S('fnv-len', 'C08', ['hash/fnv1a.c'], [('hash/fnv1a.c', "    for(i = 0; i < n; i++) {\n        fnv1a ^= bytes[i];\n        fnv1a *= FNV1A_PRIME_64;", "    for(i = 0; i < n; i++) {\n        fnv1a ^= bytes[(uint16_t) i];\n        fnv1a *= FNV1A_PRIME_64;")], PRE + r'''
#include "hash/fnv1a.h"
int main(void) { static unsigned char d[66000]; uint64_t r = FNV1A_BASE_64; int i; for(i = 0; i < 66000; i++) d[i] = i < 65536 ? 1 : 2; for(i = 0; i < 66000; i++) r = (r ^ d[i]) * 1099511628211ULL; CHK(fnv1a_64(FNV1A_BASE_64, d, 66000) == r); return 0; }''',
 'data longer than 65536 bytes', 'a wrong hash')
U = ['data/buffer.c']
S('buf-insert-tail', 'C09', U, [('data/buffer.c', '    if(buf->size > off)\n        memmove((uint8_t*)buf->data + off + n, (uint8_t*)buf->data + off, buf->size - off);', '    if(buf->size > off + n)\n        memmove((uint8_t*)buf->data + off + n, (uint8_t*)buf->data + off, buf->size - off);')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; buffer_init(&b); buffer_append(&b, "abcdef", 6); buffer_insert(&b, 4, "XYZ", 3); CHK(!memcmp(buffer_data(&b), "abcdXYZef", 9)); return 0; }''',
 'an insertion of at least as many bytes as follow the insertion point', 'the bytes after the insertion point are lost')
S('buf-remove-memcpy', 'C09', U, [('data/buffer.c', 'memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);', 'memcpy((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; char d[128]; int i; for(i = 0; i < 128; i++) d[i] = i; buffer_init(&b); buffer_append(&b, d, 128); buffer_remove(&b, 1, 1); for(i = 0; i < 127; i++) CHK(((char*)buffer_data(&b))[i] == d[i + (i >= 1)]); buffer_fini(&b); return 0; }''',
 'a removal of fewer bytes than follow it', 'memcpy() of overlapping memory', '-fsanitize=address')
S('buf-shrink-empty', 'C11', U, [('data/buffer.c', '    buffer_realloc(buf, buf->size);', '    buffer_realloc(buf, buffer_good_alloc_size(buf->size));')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; buffer_init(&b); buffer_reserve(&b, 100); buffer_shrink(&b); CHK(b.alloc == 0); CHK(b.data == NULL); return 0; }''',
 'shrinking a buffer which is empty but has capacity', 'empty space remains after shrinking')
S('buf-remove-shrink', 'C09', U, [('data/buffer.c', 'buffer_good_alloc_size(buf->size * 2);', 'buffer_good_alloc_size(buf->size / 2);')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; char d[200]; int i; for(i = 0; i < 200; i++) d[i] = i; buffer_init(&b); CHK(buffer_append(&b, d, 200) == 0); buffer_remove(&b, 40, 160);
 CHK(buffer_size(&b) == 40); CHK(!memcmp(buffer_data(&b), d, 40)); return 0; }''',
 'a removal leaving less than a quarter of the capacity but more than the smallest block', 'the remaining contents are truncated')
S('buf-realloc-trunc', 'C11', U, [('data/buffer.c', 'if(alloc < buf->size)\n        buf->size = alloc;', 'if(alloc < buf->size / 2)\n        buf->size = alloc;')], PRE + r'''
#include "data/buffer.h"
int main(void) { BUFFER b; buffer_init(&b); CHK(buffer_append(&b, "0123456789", 10) == 0); CHK(buffer_realloc(&b, 7) == 0); CHK(buffer_size(&b) == 7); return 0; }''',
 'a capacity reduced below the size, but not below half of it', 'the size exceeds the capacity')
S('stack-pop-u16', 'C12', U, [('data/buffer.h', '{ uint16_t ret; stack_pop(stack, (void*) &ret, sizeof(uint16_t)); return ret; }', '{ uint16_t ret; stack_pop(stack, (void*) &ret, sizeof(uint16_t)); return (uint8_t) ret; }')], PRE + r'''
#include "data/buffer.h"
int main(void) { STACK s; stack_init(&s); stack_push_uint16(&s, 0x1234); stack_push_uint16(&s, 0xfedc); CHK(stack_pop_uint16(&s) == 0xfedc); CHK(stack_pop_uint16(&s) == 0x1234); return 0; }''',
 'a uint16 value above 255', 'the popped value is truncated', '-fno-stack-protector')
S('stack-peek-i64', 'C12', U, [('data/buffer.h', '{ int64_t ret; stack_peek(stack, (void*) &ret, sizeof(int64_t)); return ret; }', '{ int64_t ret = 0; stack_peek(stack, (void*) &ret, sizeof(int32_t)); return ret; }')], PRE + r'''
#include "data/buffer.h"
int main(void) { STACK s; stack_init(&s); stack_push_int64(&s, 0x1234567890abcdefLL); CHK(stack_peek_int64(&s) == 0x1234567890abcdefLL); return 0; }''',
 'peeking an int64', 'a wrong value is read')
S('arr-u32-insert', 'C13', U, [('data/buffer.h', 'addr = (uint32_t*) buffer_insert_raw(&array->buf, index * sizeof(uint32_t), sizeof(uint32_t));', 'addr = (uint32_t*) buffer_insert_raw(&array->buf, index * sizeof(uint16_t), sizeof(uint32_t));')], PRE + r'''
#include "data/buffer.h"
int main(void) { ARRAY_uint32 a; array_uint32_init(&a); CHK(array_uint32_append(&a, 1) == 0); CHK(array_uint32_append(&a, 2) == 0); CHK(array_uint32_insert(&a, 1, 3) == 0);
 CHK(array_uint32_get(&a, 0) == 1 && array_uint32_get(&a, 1) == 3 && array_uint32_get(&a, 2) == 2); return 0; }''',
 'insertion into a uint32 array at a nonzero index', 'elements are garbled')
S('arr-ptr-remove-n', 'C13', U, [('data/buffer.h', 'BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)\n        { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }', 'BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)\n        { buffer_remove(&array->buf, index * sizeof(void*), sizeof(uint32_t)); }')], PRE + r'''
#include "data/buffer.h"
int main(void) { ARRAY_ptr a; int x[3]; array_ptr_init(&a); array_ptr_append(&a, x); array_ptr_append(&a, x + 1); array_ptr_append(&a, x + 2); array_ptr_remove(&a, 1); CHK(array_ptr_size(&a) == 2); CHK(array_ptr_get(&a, 1) == x + 2); return 0; }''',
 'removal from a pointer array on a 64-bit platform', 'elements are garbled')
S('arr-u64-acquire', 'C13', U, [('data/buffer.h', "          if(p_size != NULL) *p_size /= sizeof(uint64_t);\n", "          if(p_size != NULL) *p_size /= sizeof(uint32_t);\n")], PRE + r'''
#include "data/buffer.h"
int main(void) { ARRAY_uint64 a; size_t n; array_uint64_init(&a); array_uint64_append(&a, 1); array_uint64_append(&a, 2); free(array_uint64_acquire(&a, &n)); CHK(n == 2); return 0; }''',
 'acquiring a uint64 array', 'a wrong element count, reading past the block')
