PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
#define CHK(c) do { if(!(c)) { printf("FAILED %d: %s\n", __LINE__, #c); exit(1); } } while(0)
'''
MC = ['mem/memchunk.c']; CL = ['misc/cmdline.c']; MS = ['win32/memstream.c']; N = []
WPRE = PRE + r'''
#include "windows.h"
#include "win32/memstream.h"
const IID IID_IUnknown = {0}, IID_ISequentialStream = {1}, IID_IStream = {2}, IID_IDispatch = {3};
LONG InterlockedIncrement(LONG volatile* p) { return ++*p; } LONG InterlockedDecrement(LONG volatile* p) { return --*p; } DWORD GetLastError(void) { return 5; }
static unsigned char d[8] = { 0,1,2,3,4,5,6,7 }; static int step;
HRSRC FindResourceW(HMODULE m, LPCWSTR n, LPCWSTR t) { return step == 1 ? NULL : d; } DWORD SizeofResource(HMODULE m, HRSRC r) { return step == 2 ? 0 : 8; } HGLOBAL LoadResource(HMODULE m, HRSRC r) { return step == 3 ? NULL : d; } LPVOID LockResource(HGLOBAL g) { return step == 4 ? NULL : d; }
static IStream* s; static unsigned char b[64]; static ULONG r; static LARGE_INTEGER li; static ULARGE_INTEGER ul, ur;
'''
MF = '-DCOBJMACROS'

V = ['data/value.c']; RB = ['data/rbtree.c']
CB = r'''
#include "misc/cmdline.h"
static char out[4000]; static int rc, when; static int n; static int cb(int id, const char* a, void* u) { n++; sprintf(out + strlen(out), "%d:%s;", id, a ? a : "~"); return (when && n == when) ? rc : 0; }
'''
S('cl-dd-twice', 'C39', CL, [('misc/cmdline.c', 'if(after_doubledash  ||  strcmp(argv[i], "-") == 0) {', 'if((after_doubledash  &&  strcmp(argv[i], "--") != 0)  ||  strcmp(argv[i], "-") == 0) {')], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'a', "foo", 1, 0 }, { 0 } }; char* v[] = { "x", "--", "-a", "--", NULL }; cmdline_read(o, 4, v, cb, NULL); CHK(n == 2); return 0; }''',
 'a second "--" among the arguments after the first', 'a non-option argument disappears')
S('cl-arg-dash', 'C39', CL, [('misc/cmdline.c', "                            else if(i+1 < argc)\n                                ret = callback(opt->id, argv[++i], userdata);\n                            else\n                                ret = callback(CMDLINE_OPTID_MISSINGARG, argv[i], userdata);", "                            else if(i+1 < argc  &&  (argv[i+1][0] != '-'  ||  argv[i+1][1] == '\\0'))\n                                ret = callback(opt->id, argv[++i], userdata);\n                            else\n                                ret = callback(CMDLINE_OPTID_MISSINGARG, argv[i], userdata);")], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'n', "num", 1, CMDLINE_OPTFLAG_REQUIREDARG }, { 0 } }; char* v[] = { "x", "-n", "-5", NULL }; cmdline_read(o, 3, v, cb, NULL); CHK(!strcmp(out, "1:-5;")); return 0; }''',
 'a required argument in the next token which starts with a dash', 'the argument is reported missing')
S('cl-ret-neg', 'C40', CL, [('misc/cmdline.c', '        if(ret != 0)\n            return ret;\n        i++;', '        if(ret < 0  ||  (ret > 0  &&  !after_doubledash))\n            return ret;\n        i++;')], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'a', "foo", 1, 0 }, { 0 } }; char* v[] = { "x", "--", "p", "q", NULL }; when = 1; rc = 3; CHK(cmdline_read(o, 4, v, cb, NULL) == 3 && n == 1); return 0; }''',
 'a callback aborting with a positive code after "--"', 'parsing continues')
S('cl-eq-noarg', 'C39', CL, [('misc/cmdline.c', '                                snprintf(auxbuf, CMDLINE_AUXBUF_SIZE, "--%s", opt->longname);\n                                ret = callback(CMDLINE_OPTID_BOGUSARG, auxbuf, userdata);', '                                snprintf(auxbuf, CMDLINE_AUXBUF_SIZE, "--%s", opt->longname);\n                                ret = callback(CMDLINE_OPTID_BOGUSARG, (argv[i][2+len+1] != \'\\0\') ? auxbuf : argv[i], userdata);')], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'a', "foo", 1, 0 }, { 0 } }; char* v[] = { "x", "--foo=", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(strstr(out, ":--foo;")); return 0; }''',
 'an argument-less option given an empty argument', 'the name passed to the callback carries the equal sign')
S('cl-opt-eq-empty', 'C39', CL, [('misc/cmdline.c', "                                ret = callback(opt->id, argv[i]+2+len+1, userdata);", "                                ret = callback(opt->id, (argv[i][2+len+1] != '\\0') ? argv[i]+2+len+1 : NULL, userdata);")], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'a', "foo", 1, CMDLINE_OPTFLAG_OPTIONALARG }, { 0 } }; char* v[] = { "x", "--foo=", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(!strcmp(out, "1:;")); return 0; }''',
 'an empty argument after the equal sign', 'the argument is reported as not given')
S('cl-short-high', 'C39', CL, [('misc/cmdline.c', "                } else if(opt->shortname != '\\0'  &&  argv[i][0] == '-') {", "                } else if(opt->shortname > ' '  &&  argv[i][0] == '-') {")], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { (char) 0xe9, NULL, 1, 0 }, { 0 } }; char* v[] = { "x", "-\xe9", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(!strcmp(out, "1:~;")); return 0; }''',
 'a short option whose character is above 127', 'the option is unknown')
S('cl-group-ret', 'C40', CL, [('misc/cmdline.c', '        if(opt->id != 0  &&  !(opt->flags & CMDLINE_OPTFLAG_REQUIREDARG)) {', '        if(opt->id > 0  &&  !(opt->flags & CMDLINE_OPTFLAG_REQUIREDARG)) {')], PRE + CB + r'''
int main(void) { CMDLINE_OPTION o[] = { { 'a', NULL, 5, 0 }, { 'b', NULL, -9, 0 }, { 0 } }; char* v[] = { "x", "-ab", NULL }; cmdline_read(o, 2, v, cb, NULL); CHK(!strcmp(out, "5:~;-9:~;")); return 0; }''',
 'an option with a negative identifier within a group', 'it is reported as unknown')
S('mc-quarter', 'C36', MC, [('mem/memchunk.c', '            block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);\n', '            block = malloc(chunk->block_size);\n')], PRE + r'''
#include "mem/memchunk.h"
int main(void) { MEMCHUNK c; int i; memchunk_init(&c, 64); for(i = 0; i < 4; i++) memset(memchunk_alloc(&c, 16), 0, 16); memchunk_fini(&c); return 0; }''',
 'filling a block to its last bytes', 'memory is written beyond the block', '-fsanitize=address')
S('ms-seek-4g', 'C42', MS, [('win32/memstream.c', '    if(pos.QuadPart != (ULONG) pos.QuadPart) {', '    if(pos.QuadPart > (LONGLONG) (ULONG) -1 + 1) {')], WPRE + r'''
int main(void) { memstream_create(d, 8, &s); li.QuadPart = 3; IStream_Seek(s, li, STREAM_SEEK_SET, NULL); li.QuadPart = 0x100000000LL; CHK(IStream_Seek(s, li, STREAM_SEEK_SET, &ul) != S_OK); CHK(ul.QuadPart == 3); return 0; }''',
 'a seek to exactly 2^32', 'the stream is silently rewound', MF)
S('ms-seek-beyond', 'C42', MS, [('win32/memstream.c', '    if(s->pos >= s->size) {\n        if(n_read', '    if(s->pos == s->size) {\n        if(n_read')], WPRE + r'''
int main(void) { unsigned char* e = malloc(8); memstream_create(e, 8, &s); li.QuadPart = 20; IStream_Seek(s, li, STREAM_SEEK_SET, NULL); CHK(IStream_Read(s, b, 4, &r) == S_FALSE && r == 0); return 0; }''',
 'reading after a seek beyond the end', 'memory beyond the data is read', MF + ' -fsanitize=address')
S('ms-copy-nowritten', 'C43', MS, [('win32/memstream.c', '    if(n_read != NULL)\n        n_read->QuadPart = written;\n    if(n_written', '    if(n_read != NULL)\n        n_read->QuadPart = n.QuadPart;\n    if(n_written')], WPRE + r'''
static HRESULT tw(IStream* self, const void* p, ULONG n, ULONG* w) { *w = n > 3 ? 3 : n; return S_OK; }
int main(void) { static IStreamVtbl v; IStream t; v.Write = tw; t.lpVtbl = &v; memstream_create(d, 8, &s); ul.QuadPart = 6; IStream_CopyTo(s, &t, ul, &ur, NULL); CHK(ur.QuadPart == 3); return 0; }''',
 'a target which accepts only a part', 'the reported number of bytes read is wrong', MF)
S('ms-stat-pos', 'C42', MS, [('win32/memstream.c', '    stat->cbSize.QuadPart = s->size;', '    stat->cbSize.QuadPart = (s->pos <= s->size) ? s->size : s->pos;')], WPRE + r'''
int main(void) { STATSTG st; memstream_create(d, 8, &s); li.QuadPart = 20; IStream_Seek(s, li, STREAM_SEEK_SET, NULL); IStream_Stat(s, &st, 1); CHK(st.cbSize.QuadPart == 8); return 0; }''',
 'asking for the size while positioned beyond the end', 'a size larger than the data', MF)
S('ms-write-count', 'C44', MS, [('win32/memstream.c', '    if(n_written != NULL)\n        *n_written = 0;\n    return STG_E_ACCESSDENIED;', '    if(n_written != NULL  &&  n > 0)\n        *n_written = 0;\n    return STG_E_ACCESSDENIED;')], WPRE + r'''
int main(void) { memstream_create(d, 8, &s); r = 77; IStream_Write(s, b, 0, &r); CHK(r == 0); return 0; }''',
 'writing nothing', 'the number of written bytes is left undefined', MF)
S('ms-qi-fail', 'C44', MS, [('win32/memstream.c', '    } else {\n        *obj = NULL;\n        return E_NOINTERFACE;', '    } else {\n        if(s_refs(self) == 0)\n            *obj = NULL;\n        return E_NOINTERFACE;'), ('win32/memstream.c', 'static HRESULT STDMETHODCALLTYPE\nmemstream_QueryInterface(', 'static LONG\ns_refs(IStream* self)\n{\n    return MEMSTREAM_FROM_IFACE(self)->refs - 1;\n}\n\nstatic HRESULT STDMETHODCALLTYPE\nmemstream_QueryInterface(')], WPRE + r'''
int main(void) { void* o = &o; memstream_create(d, 8, &s); IStream_AddRef(s); CHK(IStream_QueryInterface(s, &IID_IDispatch, &o) == E_NOINTERFACE); CHK(o == NULL); return 0; }''',
 'asking for an unsupported interface while there are two references', 'the output pointer is left undefined', MF)
S('ms-addref-race', 'C45', MS, [('win32/memstream.c', '    return InterlockedIncrement(&s->refs);\n}', '    InterlockedIncrement(&s->refs);\n    return (s->refs > 1) ? s->refs : (s->refs = 2);\n}')], WPRE.replace('return ++*p; }', 'LONG v = ++*p; if(v == 3 && hook) { hook = 0; IStream_Release(hs); } return v; }').replace('const IID IID_IUnknown', 'static int hook; static IStream* hs;\nconst IID IID_IUnknown') + r'''
int main(void) { memstream_create(d, 8, &s); IStream_AddRef(s); hs = s; hook = 1; CHK(IStream_AddRef(s) == 3); return 0; }''',
 'another thread releasing its reference right after the increment', 'the returned count is not the one this call produced', MF)
S('ms-qi-race', 'C45', MS, [('win32/memstream.c', '        InterlockedIncrement(&s->refs);\n        *obj = s;', '        s->refs++;\n        *obj = s;')], PRE + r'''
#include <pthread.h>
#include "windows.h"
#include "win32/memstream.h"
const IID IID_IUnknown = {0}, IID_ISequentialStream = {1}, IID_IStream = {2}, IID_IDispatch = {3};
LONG InterlockedIncrement(LONG volatile* p) { return __sync_add_and_fetch(p, 1); } LONG InterlockedDecrement(LONG volatile* p) { return __sync_sub_and_fetch(p, 1); } DWORD GetLastError(void) { return 5; }
HRSRC FindResourceW(HMODULE m, LPCWSTR n, LPCWSTR t) { return NULL; } DWORD SizeofResource(HMODULE m, HRSRC r) { return 0; } HGLOBAL LoadResource(HMODULE m, HRSRC r) { return NULL; } LPVOID LockResource(HGLOBAL g) { return NULL; }
static IStream* s; static void* th(void* a) { int i; void* o; for(i = 0; i < 3000000; i++) IStream_QueryInterface(s, &IID_IStream, &o); return NULL; }
int main(void) { int k; for(k = 0; k < 20; k++) { pthread_t t[4]; int i; memstream_create((void*)"x", 1, &s); for(i = 0; i < 4; i++) pthread_create(&t[i], 0, th, 0); for(i = 0; i < 4; i++) pthread_join(t[i], 0); CHK(IStream_AddRef(s) == 14000002); } return 0; }''',
 'two threads asking for an interface at the same time', 'a reference is lost', MF + ' -pthread')
S('ms-res-size', 'C44', MS, [('win32/memstream.c', "       (res_global = LoadResource(instance, res)) == NULL  ||\n       (res_data = LockResource(res_global)) == NULL)", "       (res_global = LoadResource(instance, res)) == NULL  ||\n       ((res_data = LockResource(res_global)) == NULL  &&  res_size > 0xffff))")], WPRE + r'''
int main(void) { step = 4; CHK(memstream_create_from_resource(NULL, NULL, NULL, &s) != S_OK); return 0; }''',
 'a small resource which cannot be locked', 'a stream over no data is returned', MF)
S('rb-cursor-short', 'C22', RB, [('data/rbtree.h', '    RBTREE_NODE* stack[2 * 8 * sizeof(void*)];', '    RBTREE_NODE* stack[4 * sizeof(void*)];')], PRE + r'''
#include "data/rbtree.h"
typedef struct { RBTREE_NODE n; int k; } E; static E e[400000]; static int c(const RBTREE_NODE* a, const RBTREE_NODE* b) { return ((E*)a)->k - ((E*)b)->k; }
int main(void) { RBTREE t = { 0 }; RBTREE_CURSOR cu; int i, n = 0; for(i = 0; i < 400000; i++) { e[i].k = i; CHK(rbtree_insert(&t, &e[i].n, c) == 0); } RBTREE_NODE* x = rbtree_head(&t, &cu); while(x) { CHK(x == &e[n].n); n++; x = rbtree_next(&cu); } CHK(n == 400000); return 0; }''',
 'a tree of many thousand nodes inserted in order', 'the traversal stack overflows', '-fsanitize=address')
S('va-path-short', 'C30', V, [('data/value.c', '#define RBTREE_MAX_HEIGHT       (2 * 8 * sizeof(void*))', '#define RBTREE_MAX_HEIGHT       (4 * sizeof(void*))')], PRE + r'''
#include "data/value.h"
int main(void) { VALUE d; int i; value_init_dict(&d); for(i = 0; i < 300000; i++) { char k[8]; int j, x = i; for(j = 7; j >= 0; j--) { k[j] = '0' + x % 10; x /= 10; } CHK(value_dict_add_(&d, k, 8) != NULL); } CHK(value_dict_size(&d) == 300000); value_fini(&d); return 0; }''',
 'a dictionary of many thousand entries added in order', 'the path stack overflows', '-fsanitize=address')
