PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
'''
MC = ['mem/memchunk.c']; CL = ['misc/cmdline.c']; MS = ['win32/memstream.c']; N = []
S('mc-big-after', 'C36', MC, [('mem/memchunk.c', '                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = chunk->block_size;', '                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = (size < chunk->block_size) ? size : chunk->block_size;')], PRE + r'''
#include "mem/memchunk.h"
int main(void) { MEMCHUNK c; char* a, *b; memchunk_init(&c, 1000); a = memchunk_alloc(&c, 400); b = memchunk_alloc(&c, 100); memset(b, 1, 100); memchunk_fini(&c); return 0; }''',
 'the very first allocation being a big one smaller than the block size', 'later allocations lie outside of the block', '-fsanitize=address')
S('mc-big-leak', 'C37', MC, [('mem/memchunk.c', '                block->next = chunk->head->next;\n                chunk->head->next = block;', '                block->next = (chunk->head->next != NULL && size > chunk->block_size) ? chunk->head->next->next : chunk->head->next;\n                chunk->head->next = block;')], PRE + r'''
#include "mem/memchunk.h"
int main(void) { MEMCHUNK c; memchunk_init(&c, 100); memchunk_alloc(&c, 10); memchunk_alloc(&c, 300); memchunk_alloc(&c, 300); memchunk_fini(&c); return 0; }''',
 'two allocations larger than the block size after a normal one', 'a block is leaked', '-fsanitize=address')
S('mc-free-off', 'C36', MC, [('mem/memchunk.c', '            block->next = chunk->head;\n            chunk->head = block;\n            chunk->free_off = 0;', '            block->next = chunk->head;\n            chunk->head = block;\n            if(block->next == NULL || size < chunk->block_size - chunk->free_off + size)\n                chunk->free_off = 0;')], PRE + r'''
#include "mem/memchunk.h"
int main(void) { MEMCHUNK c; int i; memchunk_init(&c, 1000); for(i = 0; i < 14; i++) memset(memchunk_alloc(&c, 100), i, 100); memchunk_fini(&c); return 0; }''',
 'a block filled exactly to its end before the next one is needed', 'allocations lie outside of the block', '-fsanitize=address')
S('mc-fini-head', 'C37', MC, [('mem/memchunk.c', '        chunk->head = block->next;\n        free(block);\n        block = chunk->head;', '        free(block);\n        block = block->next;\n        chunk->head = block;')], PRE + r'''
#include "mem/memchunk.h"
int main(void) { MEMCHUNK c; memchunk_init(&c, 100); memchunk_alloc(&c, 10); memchunk_alloc(&c, 300); memchunk_fini(&c); return 0; }''',
 'at least one block', 'memory is used after its release', '-fsanitize=address')
S('mc-oom-head', 'C37', MC, [('mem/memchunk.c', '            block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);\n            if(block == NULL)\n                return NULL;', '            block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);\n            if(block == NULL) {\n                chunk->free_off = 0;\n                return NULL;\n            }')], PRE + r'''
#include "mem/memchunk.h"
static int failnow; void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { return failnow ? NULL : __real_malloc(n); }
int main(void) { MEMCHUNK c; char *a, *b; memchunk_init(&c, 100); a = memchunk_alloc(&c, 90); strcpy(a, "x"); failnow = 1; CHK(memchunk_alloc(&c, 20) == NULL); failnow = 0; b = memchunk_alloc(&c, 20); strcpy(b, "y"); CHK(!strcmp(a, "x")); return 0; }''',
 'a failing allocation of a further block, then another allocation', 'two allocations overlap', '-Wl,--wrap=malloc')
S('ma-mark-type', 'C38', N, [('mem/malloca.h', '        int* x = (int*)ptr;\n        *x = mark;\n        ptr = (void*)((char*)ptr + sizeof(void*));', '        int* x = (int*)ptr;\n        *x = mark;\n        ptr = (void*)(x + 1);')], PRE + r'''
#include "mem/malloca.h"
static int nfree; static void my_free(void* p) { nfree++; free(p); }
#define free my_free
int main(void) { char* p = MALLOCA(100000); memset(p - 8, 0x11, 4); FREEA(p); CHK(((size_t) p & 7) == 0); CHK(nfree == 0); return 0; }''',
 'a 64-bit platform', 'memory is misaligned and heap blocks are never freed')
S('cl-prefix', 'C39', CL, [('misc/cmdline.c', '                        } else {\n                            continue;\n                        }', '                        }\n                        if(opt->shortname != \'\\0\'  &&  argv[i][2+len+1] == \'\\0\')\n                            opt++;\n                        continue;')], PRE + r'''
#include "misc/cmdline.h"
static int got; static int cb(int id, const char* a, void* u) { got = id; return 0; }
int main(void) { CMDLINE_OPTION o[] = { { 'a', "foo", 1, 0 }, { 'b', "foox", 2, 0 }, { 0 } }; char* v[] = { "x", "--foox", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(got == 2); return 0; }''',
 'a long option which is the name of the option before it plus one character', 'a known option is reported as unknown')
S('cl-trunc', 'C40', CL, [('misc/cmdline.c', '                            if(len > CMDLINE_AUXBUF_SIZE)\n                                len = CMDLINE_AUXBUF_SIZE;', '                            if(len > CMDLINE_AUXBUF_SIZE + 1)\n                                len = CMDLINE_AUXBUF_SIZE + 1;')], PRE + r'''
#include "misc/cmdline.h"
static char got[200]; static int cb(int id, const char* a, void* u) { strcpy(got, a); return 0; }
int main(void) { CMDLINE_OPTION o[] = { { 0 } }; char* v[] = { "x", "--0123456789012345678901234567890123456789=1", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(strlen(got) <= 32); return 0; }''',
 'an unknown long option whose name is longer than 32 characters, given with an argument', 'a byte is written past an internal buffer', '-fsanitize=address')
S('cl-group-abort', 'C40', CL, [('misc/cmdline.c', '                            if(ret == 0  &&  argv[i][2] != \'\\0\')', '                            if(argv[i][2] != \'\\0\')')], PRE + r'''
#include "misc/cmdline.h"
static int n; static int cb(int id, const char* a, void* u) { n++; return n == 1 ? 7 : 0; }
int main(void) { CMDLINE_OPTION o[] = { { 'a', "aa", 1, 0 }, { 'b', "bb", 2, 0 }, { 0 } }; char* v[] = { "x", "-ab", "c", NULL }; CHK(cmdline_read(o, 3, v, cb, NULL) == 7); CHK(n == 1); return 0; }''',
 'a callback that aborts at the first option of a group of short options', 'parsing goes on and the error is lost')
S('cl-group-last', 'C40', CL, [('misc/cmdline.c', '        if(ret != 0)\n            break;\n    }\n\n    return ret;', '        if(ret < 0)\n            break;\n    }\n\n    return ret;')], PRE + r'''
#include "misc/cmdline.h"
static int n; static int cb(int id, const char* a, void* u) { n++; return n == 2 ? 7 : 0; }
int main(void) { CMDLINE_OPTION o[] = { { 'a', "aa", 1, 0 }, { 'b', "bb", 2, 0 }, { 0 } }; char* v[] = { "x", "-aba", "c", NULL }; CHK(cmdline_read(o, 3, v, cb, NULL) == 7); CHK(n == 2); return 0; }''',
 'a callback that aborts with a positive code within a group', 'parsing goes on and the error is lost')
S('cl-empty-arg', 'C39', CL, [('misc/cmdline.c', '                            else if(i+1 < argc)\n                                ret = callback(opt->id, argv[++i], userdata);\n                            else\n                                ret = callback(CMDLINE_OPTID_MISSINGARG, argv[i], userdata);', '                            else if(i+1 < argc  &&  argv[i+1][0] != \'\\0\')\n                                ret = callback(opt->id, argv[++i], userdata);\n                            else\n                                ret = callback(CMDLINE_OPTID_MISSINGARG, argv[i], userdata);')], PRE + r'''
#include "misc/cmdline.h"
static int got; static int cb(int id, const char* a, void* u) { if(got == 0) got = id; return 0; }
int main(void) { CMDLINE_OPTION o[] = { { 'a', "aa", 1, CMDLINE_OPTFLAG_REQUIREDARG }, { 0 } }; char* v[] = { "x", "-a", "", NULL }; cmdline_read(o, 3, v, cb, NULL); CHK(got == 1); return 0; }''',
 'a short option followed by an empty argument', 'the argument is not delivered')
S('cl-dash-after', 'C39', CL, [('misc/cmdline.c', '        } else if(strcmp(argv[i], "--") == 0) {', '        } else if(strncmp(argv[i], "--", argc > 2 ? 3 : 2) == 0) {')], PRE + r'''
#include "misc/cmdline.h"
static int n; static int cb(int id, const char* a, void* u) { n++; return 0; }
int main(void) { CMDLINE_OPTION o[] = { { 'a', "aa", 1, 0 }, { 0 } }; char* v[] = { "x", "--aa", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(n == 1); return 0; }''',
 'a command line with a single long option', 'the option is swallowed')
S('cl-compiler-mid', 'C39', CL, [('misc/cmdline.c', "if((opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  opt->longname[0] != '-')\n            fast_optarg_decision = 0;", "if(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)\n            fast_optarg_decision = (opt->longname[0] == '-');")], PRE + r'''
#include "misc/cmdline.h"
static int got = -1; static int cb(int id, const char* a, void* u) { got = id; return 0; }
int main(void) { CMDLINE_OPTION o[] = { { 0, "/I", 1, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, "-I", 2, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0 } }; char* v[] = { "x", "/Ifoo", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(got == 1); return 0; }''',
 'a compiler-like option without a leading dash defined before one with a dash', 'the option is taken for a non-option argument')
S('df-abs', 'C41', N, [('misc/defs.h', '((a) >= 0 ? (a) : -(a))', '((a) >= 0 ? (a) : -a)')], PRE + r'''
#include "misc/defs.h"
int main(void) { int x = 3, y = 5; CHK(ABS(x - y) == 2); return 0; }''',
 'an argument that is a negative difference', 'a wrong absolute value')
S('df-sizeof', 'C41', N, [('misc/defs.h', '(sizeof((array)) / sizeof((array)[0]))', 'sizeof((array)) / sizeof((array)[0])')], PRE + r'''
#include "misc/defs.h"
int main(void) { int a[6]; CHK(100 / SIZEOF_ARRAY(a) == 16); return 0; }''',
 'use of the macro inside a larger expression', 'a wrong count')
S('df-container', 'C41', N, [('misc/defs.h', '((type*)((char*)(1 ? (ptr) : &((type *)0)->member) - OFFSETOF(type, member)))', '((type*)((char*)(1 ? (ptr) : &((type *)0)->member) - (unsigned char) OFFSETOF(type, member)))')], PRE + r'''
#include "misc/defs.h"
struct s { char a[300]; int b; };
int main(void) { struct s x; CHK(CONTAINEROF(&x.b, struct s, b) == &x); return 0; }''',
 'a member at an offset of 256 or more', 'a wrong pointer')
WPRE = PRE + r'''
#include "windows.h"
#include "win32/memstream.h"
const IID IID_IUnknown = {0}, IID_ISequentialStream = {1}, IID_IStream = {2}, IID_IDispatch = {3};
LONG InterlockedIncrement(LONG volatile* p) { return ++*p; } LONG InterlockedDecrement(LONG volatile* p) { return --*p; } DWORD GetLastError(void) { return 5; }
static unsigned char d[8] = { 0,1,2,3,4,5,6,7 }; static int step;
HRSRC FindResourceW(HMODULE m, LPCWSTR n, LPCWSTR t) { return step == 1 ? NULL : d; } DWORD SizeofResource(HMODULE m, HRSRC r) { return step == 2 ? 0 : 8; } HGLOBAL LoadResource(HMODULE m, HRSRC r) { return step == 3 ? NULL : d; } LPVOID LockResource(HGLOBAL g) { return step == 4 ? NULL : d; }
static IStream* s; static unsigned char b[64]; static ULONG r; static LARGE_INTEGER li; static ULARGE_INTEGER ul, ur;
'''
MF = '-DCOBJMACROS'
S('ms-read-clip', 'C42', MS, [('win32/memstream.c', '    if(n > s->size - s->pos)\n        n = s->size - s->pos;', '    if(s->pos + n > s->size)\n        n = s->size - s->pos;')], WPRE + r'''
int main(void) { memstream_create(d, 8, &s); IStream_Read(s, b, 2, &r); { unsigned char* big = malloc(16); CHK(IStream_Read(s, big, 0xfffffffeu, &r) == S_OK); CHK(r == 6); } return 0; }''',
 'a position above 0 and a read of nearly 2^32 bytes', 'memory is read beyond the data', MF + ' -fsanitize=address')
S('ms-seek-end', 'C42', MS, [('win32/memstream.c', '    if(pos.QuadPart != (ULONG) pos.QuadPart) {', '    if(pos.QuadPart > s->size  &&  pos.QuadPart != (LONG) pos.QuadPart) {')], WPRE + r'''
int main(void) { memstream_create(d, 8, &s); li.QuadPart = 0x80000000LL; CHK(IStream_Seek(s, li, STREAM_SEEK_SET, &ul) == S_OK); CHK(ul.QuadPart == 0x80000000ULL); return 0; }''',
 'a seek to an offset of 2^31 or more', 'a valid seek is refused', MF)
S('ms-clone-pos', 'C43', MS, [('win32/memstream.c', '        so->pos = s->pos;', '        so->pos = (s->pos < s->size) ? s->pos : s->size;')], WPRE + r'''
int main(void) { IStream* c; memstream_create(d, 8, &s); li.QuadPart = 20; IStream_Seek(s, li, STREAM_SEEK_SET, NULL); IStream_Clone(s, &c); li.QuadPart = 0; IStream_Seek(c, li, STREAM_SEEK_CUR, &ul); CHK(ul.QuadPart == 20); return 0; }''',
 'cloning a stream positioned beyond its end', 'the clone has another position', MF)
S('ms-copy-short', 'C43', MS, [('win32/memstream.c', '    s->pos += written;', '    s->pos += (ULONG) n.QuadPart;')], WPRE + r'''
static HRESULT tw(IStream* self, const void* p, ULONG n, ULONG* w) { *w = n > 3 ? 3 : n; return S_OK; }
int main(void) { static IStreamVtbl v; IStream t; v.Write = tw; t.lpVtbl = &v; memstream_create(d, 8, &s); ul.QuadPart = 6; IStream_CopyTo(s, &t, ul, NULL, NULL); li.QuadPart = 0; IStream_Seek(s, li, STREAM_SEEK_CUR, &ur); CHK(ur.QuadPart == 3); return 0; }''',
 'a target that accepts fewer bytes than offered', 'the stream position does not match the bytes transferred', MF)
S('ms-qi-ref', 'C44', MS, [('win32/memstream.c', '        InterlockedIncrement(&s->refs);\n        *obj = s;', '        if(!IsEqualGUID(riid, &IID_IUnknown))\n            InterlockedIncrement(&s->refs);\n        *obj = s;')], WPRE + r'''
int main(void) { void* o; memstream_create(d, 8, &s); CHK(IStream_QueryInterface(s, &IID_IUnknown, &o) == S_OK); CHK(IStream_Release(s) == 1); return 0; }''',
 'asking for IUnknown', 'the stream is released while still referenced', MF)
S('ms-release-race', 'C45', MS, [('win32/memstream.c', '    refs = InterlockedDecrement(&s->refs);\n    if(refs == 0)\n        free(s);\n    return refs;', '    InterlockedDecrement(&s->refs);\n    refs = s->refs;\n    if(refs == 0)\n        free(s);\n    return refs;')], WPRE.replace('return --*p; }', 'LONG v = --*p; if(v == 1 && hook) { hook = 0; IStream_Release(hs); } return v; }').replace('const IID IID_IUnknown', 'static int hook; static IStream* hs;\nconst IID IID_IUnknown') + r'''
static int frees; void __real_free(void*); void __wrap_free(void* p) { frees++; }
int main(void) { memstream_create(d, 8, &s); IStream_AddRef(s); hs = s; hook = 1; IStream_Release(s); CHK(frees == 1); return 0; }''',
 'another thread releasing its reference right after the decrement', 'the stream is freed twice', MF + ' -Wl,--wrap=free')
