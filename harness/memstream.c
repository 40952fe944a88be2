/* win32/memstream.c through its COM interface, against a model of a read-only stream; Windows is a model (lib/win32) */
#define COBJMACROS
#include "vp.h"
#include "win32/memstream.h"
#ifndef SYM
#define SYM 0
#endif
#if SYM
#define MAXS CLONES
#else
#define MAXS 4
#endif
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IDispatch = { 0x20400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_ISequentialStream = { 0x0C733A30, 0x2A1C, 0x11CE, { 0xAD, 0xE5, 0, 0xAA, 0, 0x44, 0x77, 0x3D } }, IID_IStream = { 0xC, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IPersist = { 0x10C, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IMarshal = { 3, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IStorage = { 0xB, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_ILockBytes = { 0xA, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IClassFactory = { 1, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IAgileObject = { 0x94ea2b94, 0xe9cc, 0x49e0, { 0xc0, 0xff, 0xee, 0x64, 0xca, 0x8f, 0x5b, 0x90 } }, IID_INoMarshal = { 0xecc8691b, 0xc1db, 0x4dc0, { 0x85, 0x5e, 0x65, 0xf6, 0xc5, 0x51, 0xaf, 0x49 } };
static struct { IStream* s; int refs; uint64_t pos; } st[MAXS]; static int ns;
static uint8_t* data; static uint64_t size; static uint64_t at; static uint8_t atv;
#if !SYM
static uint8_t copy[64];
#endif
/* ---- Windows */
/* other threads: see THREADS below */
static void preempt(void);
LONG InterlockedIncrement(LONG volatile* p) { LONG v; preempt(); v = ++*p; return v; }
LONG InterlockedDecrement(LONG volatile* p) { LONG v; preempt(); v = --*p; return v; }
LONG InterlockedExchangeAdd(LONG volatile* p, LONG d) { LONG v; preempt(); v = *p; *p += d; return v; }
LONG InterlockedAdd(LONG volatile* p, LONG d) { LONG v; preempt(); v = *p += d; return v; }
LONG InterlockedExchange(LONG volatile* p, LONG d) { LONG v; preempt(); v = *p; *p = d; return v; }
LONG InterlockedCompareExchange(LONG volatile* p, LONG n, LONG o) { LONG v; preempt(); v = *p; if (v == o) *p = n; return v; }
static DWORD last_error; DWORD GetLastError(void) { return last_error; } void SetLastError(DWORD e) { last_error = e; }
static int res_step; static HINSTANCE res_inst; static WCHAR res_name[2], res_type[2]; static char res_handle, res_global; static int res_ok;
static int res_fails(int step) { if (res_step == step) { last_error = vp_u32("last error"); vp_assume_x(last_error <= 0x7fffffff); return 1; } return 0; }
HRSRC FindResourceW(HMODULE m, LPCWSTR n, LPCWSTR t) { vp_assert(m == res_inst && n == res_name && t == res_type, "the resource asked for is looked up"); return res_fails(1) ? NULL : &res_handle; }
DWORD SizeofResource(HMODULE m, HRSRC r) { vp_assert(m == res_inst && r == &res_handle, "resource handle"); return res_fails(2) ? 0 : (DWORD)size; }
HGLOBAL LoadResource(HMODULE m, HRSRC r) { vp_assert(m == res_inst && r == &res_handle, "resource handle"); return res_fails(3) ? NULL : &res_global; }
LPVOID LockResource(HGLOBAL g) { vp_assert(g == &res_global, "resource handle"); return res_fails(4) ? NULL : data; }
/* ---- target of copies */
static uint64_t t_from, t_max, t_done; static int t_fail, t_short, t_calls; static HRESULT t_hr;
static HRESULT t_write(IStream* self, const void* buf, ULONG n, ULONG* w)
{
    uint64_t k = n; (void)self; t_calls++;
    vp_assert(!t_fail, "nothing is written after a failure");
    vp_assert(t_done <= t_max && n <= t_max - t_done, "no more than requested and available is written");
    if (n > 0) {
        vp_assert(vp_region_ok(buf, n), "the data written is readable");
#if SYM
        if (at >= t_from + t_done && at < t_from + t_done + n) vp_assert(((const uint8_t*)buf)[at - t_from - t_done] == atv, "the right data is written");
#else
        { uint64_t i; for (i = 0; i < n; i++) vp_assert_x(((const uint8_t*)buf)[i] == copy[t_from + t_done + i], "the right data is written"); }
#endif
        if (vp_concretize(vp_bool("write short"))) {
#if SYM
            k = vp_u32("written"); vp_assume(k < n);
#else
            k = vp_pick_range("written", 0, n - 1);
#endif
            t_short = 1; }
    }
    if (w) *w = vp_u32("junk");
    if (vp_concretize(vp_bool("write fails"))) { t_fail = 1; t_hr = (HRESULT)(vp_bits("failure", 31) | 0x80000000u); if (w && vp_bool("reported")) *w = (ULONG)k; return t_hr; }
    t_done += k; if (w) *w = (ULONG)k;
    return t_short ? (HRESULT)vp_bits("success", 31) : S_OK;
}
static HRESULT t_qi(IStream* s, REFIID i, void** o) { (void)s; (void)i; *o = NULL; return E_NOINTERFACE; }
static ULONG t_ref(IStream* s) { (void)s; return 2; }
static HRESULT t_read(IStream* s, void* b, ULONG n, ULONG* r) { (void)s; (void)b; (void)n; (void)r; vp_assert(0, "the target is only written"); return E_FAIL; }
static IStreamVtbl t_vt; static IStream target;
/* ---- checks */
static uint64_t tell(IStream* s) { LARGE_INTEGER z; ULARGE_INTEGER p; z.QuadPart = 0; p.QuadPart = vp_u64("junk"); vp_assert(IStream_Seek(s, z, STREAM_SEEK_CUR, &p) == S_OK, "asking for the position succeeds"); return p.QuadPart; }
static void same_pos(int i) { vp_assert_x(tell(st[i].s) == st[i].pos, "the position"); }
static void op_seek(int i)
{
    LARGE_INTEGER d; ULARGE_INTEGER p; int64_t to = 0; int origin = (int)vp_pick_range("origin", 0, 3), ok, null = (int)vp_pick_range("no new position", 0, 1); HRESULT hr; uint64_t base; DWORD org = (DWORD)origin;
    d.QuadPart = (int64_t)vp_u64("offset"); p.QuadPart = vp_u64("junk"); if (origin == 3) { org = vp_u32("origin"); vp_assume_x(org > 2); }
    base = origin == 0 ? 0 : origin == 1 ? st[i].pos : size;
    ok = !__builtin_add_overflow((int64_t)base, d.QuadPart, &to);
    ok = (int)vp_concretize((uint64_t)(ok & (to >= 0) & (to <= 0xffffffffLL) & (origin < 3)));
    hr = IStream_Seek(st[i].s, d, org, null ? NULL : &p);
    if (ok) { vp_assert(hr == S_OK, "a seek within 32 bits succeeds"); st[i].pos = (uint64_t)to;
#if !SYM
        if (vp_concretize(st[i].pos <= size)) st[i].pos = vp_concretize(st[i].pos);
#endif
    } else vp_assert(FAILED(hr), "a seek out of range or with a bad origin fails");
    if (!null) vp_assert_x(p.QuadPart == st[i].pos, "the reported new position is the real one");
    same_pos(i);
}
static void op_read(int i)
{
    uint64_t rest = 0, k, n; uint32_t got = vp_u32("junk"); int null = (int)vp_pick_range("no count", 0, 1); uint8_t* out; HRESULT hr;
    if (vp_concretize(st[i].pos < size)) rest = size - st[i].pos;
#if SYM
    n = vp_u32("length"); k = n < rest ? n : rest;
    vp_assume(n <= 0x7fffffff || n >= 0xfffffff0); out = n <= 0x7fffffff ? vp_block(n) : NULL;
    vp_assume(out != NULL || k == 0 || n > 0x7fffffff);
    if (n > 0x7fffffff) { vp_assume(k <= 0x7fffffff); out = vp_block(k); }
#else
    n = vp_pick_range("length", 0, SIZE + 4); if (n == SIZE + 2) n = 0x80000000u; else if (n == SIZE + 3) n = 0xffffffffu; else if (n == SIZE + 4) { n = (uint32_t)(0u - (uint32_t)st[i].pos); }
    k = vp_concretize(n < rest) ? n : rest; out = vp_block(k);   /* exactly what may be written */
#endif
    hr = IStream_Read(st[i].s, out, (ULONG)n, null ? NULL : &got);
    if (rest == 0) { if (n > 0) vp_assert(hr == S_FALSE, "the end of data is signalled"); else vp_assert(hr == S_FALSE || hr == S_OK, "reading nothing succeeds"); }
    else { if (k == n) vp_assert(hr == S_OK, "a read succeeds"); else vp_assert(hr == S_OK || hr == S_FALSE, "a read succeeds"); }
    if (!null) vp_assert_x(got == k, "the count is the number of bytes delivered");
#if SYM
    if (at >= st[i].pos && at < st[i].pos + k) vp_assert(out[at - st[i].pos] == atv, "exactly the bytes at the position are delivered");
#else
    { uint64_t j; for (j = 0; j < k; j++) vp_assert_x(out[j] == copy[st[i].pos + j], "exactly the bytes at the position are delivered"); }
#endif
    st[i].pos += k; same_pos(i);
}
static void op_copy(int i)
{
    ULARGE_INTEGER n, r, w; uint64_t rest = 0; int nr = (int)vp_pick_range("no counts", 0, 3); HRESULT hr;
    if (vp_concretize(st[i].pos < size)) rest = size - st[i].pos;
    n.QuadPart = vp_u64("count"); r.QuadPart = vp_u64("junk"); w.QuadPart = vp_u64("junk");
#if SYM
    t_max = n.QuadPart < rest ? n.QuadPart : rest;
#else
    t_max = vp_concretize(n.QuadPart < rest) ? vp_concretize(n.QuadPart) : rest;
#endif
    t_from = st[i].pos; t_done = 0; t_fail = t_short = t_calls = 0;
    t_vt.Write = t_write; t_vt.QueryInterface = t_qi; t_vt.AddRef = t_ref; t_vt.Release = t_ref; t_vt.Read = t_read; target.lpVtbl = &t_vt;
    hr = IStream_CopyTo(st[i].s, &target, n, (nr & 1) ? NULL : &r, (nr & 2) ? NULL : &w);
    if (t_fail) { vp_assert_x(hr == t_hr, "the failure of the target is passed on"); st[i].pos = tell(st[i].s); vp_assert(st[i].pos <= t_from + t_max, "the position stays in the data copied");
#if !SYM
        if (vp_concretize(st[i].pos <= size)) st[i].pos = vp_concretize(st[i].pos);
#endif
        return; }
    vp_assert(SUCCEEDED(hr), "copying succeeds");
    if (!t_short) vp_assert(t_done == t_max, "all requested and available data is copied");
    if (!(nr & 1)) vp_assert_x(r.QuadPart == t_done, "the count read is what was transferred"); if (!(nr & 2)) vp_assert_x(w.QuadPart == t_done, "the count written is what was transferred");
    st[i].pos += t_done; same_pos(i);
}
static void op_clone(int i)
{
    IStream* o = (IStream*)&target; HRESULT hr; long live = vp_live, failed = vp_alloc_failed;
    if (ns == MAXS) return;
    vp_fail_mode = FAIL; hr = IStream_Clone(st[i].s, &o); vp_fail_mode = 0;
    if (vp_alloc_failed > failed) { vp_assert(FAILED(hr) && o == NULL && vp_live == live, "a failing clone says so and yields null"); return; }
    vp_assert(hr == S_OK && o != NULL, "cloning succeeds"); for (int j = 0; j < ns; j++) vp_assert(st[j].refs == 0 || o != st[j].s, "the clone is a new object");
    st[ns].s = o; st[ns].refs = 1; st[ns].pos = st[i].pos; ns++; same_pos(ns - 1);
}
static void op_addref(int i) { ULONG r; if (st[i].refs >= 4) return; r = IStream_AddRef(st[i].s); st[i].refs++; vp_assert(r == (ULONG)st[i].refs, "the new count is reported"); }
static void op_release(int i)
{
    ULONG r; long live = vp_live; r = IStream_Release(st[i].s); st[i].refs--;
    vp_assert(r == (ULONG)st[i].refs, "the new count is reported"); vp_assert(vp_live == live - (st[i].refs == 0), "the object is destroyed exactly with its last reference");
}
static void op_query(int i)
{
    static const IID* const known[] = { &IID_IUnknown, &IID_ISequentialStream, &IID_IStream, &IID_IDispatch, &IID_IPersist, &IID_IMarshal, &IID_IStorage, &IID_ILockBytes, &IID_IClassFactory };
    IID x; void* o = &x; HRESULT hr; int k = (int)vp_pick_range("interface", 0, 9), yes, j;
    if (st[i].refs >= 4) return;
    if (k < 9) { x = *known[k]; yes = k < 3; }
    else { x.Data1 = vp_u32("iid"); x.Data2 = vp_u16("iid"); x.Data3 = vp_u16("iid"); for (j = 0; j < 8; j++) x.Data4[j] = vp_u8("iid"); vp_assume_x((vp_guid_eq(&x, &IID_IAgileObject) | vp_guid_eq(&x, &IID_INoMarshal)) == 0); yes = (int)vp_concretize((uint64_t)(vp_guid_eq(&x, &IID_IUnknown) | vp_guid_eq(&x, &IID_ISequentialStream) | vp_guid_eq(&x, &IID_IStream))); }
    hr = IStream_QueryInterface(st[i].s, &x, &o);
    if (yes) { vp_assert(hr == S_OK && o == (void*)st[i].s, "an implemented interface is given"); st[i].refs++; }
    else vp_assert(FAILED(hr) && o == NULL, "an interface not implemented is refused with null");
    { ULONG r = IStream_AddRef(st[i].s); vp_assert(r == (ULONG)st[i].refs + 1, "a reference is added exactly on success"); r = IStream_Release(st[i].s); vp_assert(r == (ULONG)st[i].refs, "references"); }
}
static void op_refuse(int i)
{
    ULARGE_INTEGER a, b; ULONG w = vp_u32("junk"), n = (ULONG)vp_pick_range("bytes to write", 0, 2); uint8_t x[2]; HRESULT hr; x[0] = x[1] = vp_u8("data"); a.QuadPart = vp_u64("offset"); b.QuadPart = vp_u64("size");
    switch (vp_pick_range("refused", 0, 5)) {
        case 0: hr = IStream_Write(st[i].s, x, n, &w); vp_assert(w == 0, "nothing is written"); break;
        case 1: hr = IStream_Write(st[i].s, x, n, NULL); break;
        case 2: hr = IStream_SetSize(st[i].s, a); break;
        case 3: hr = IStream_LockRegion(st[i].s, a, b, (DWORD)vp_u32("lock type")); break;
        case 4: hr = IStream_UnlockRegion(st[i].s, a, b, (DWORD)vp_u32("lock type")); break;
        default: /* nothing to commit or revert: both succeed */
            vp_assert(SUCCEEDED(IStream_Commit(st[i].s, (DWORD)vp_u32("flags"))), "commit"); vp_assert(SUCCEEDED(IStream_Revert(st[i].s)), "revert"); hr = E_FAIL;
    }
    vp_assert(FAILED(hr), "a read-only stream refuses this"); same_pos(i);
}
static void op_stat(int i)
{
    STATSTG s; HRESULT hr; s.pwcsName = (LPOLESTR)&s; s.cbSize.QuadPart = vp_u64("junk"); s.grfMode = s.type = 77;
    hr = IStream_Stat(st[i].s, &s, (DWORD)vp_pick_range("flag", 0, 1));
    vp_assert(hr == S_OK && s.type == STGTY_STREAM && s.pwcsName == NULL && (s.grfMode & 3) == STGM_READ, "a read-only stream"); vp_assert_x(s.cbSize.QuadPart == size, "the size of the data"); same_pos(i);
}
static void verify_all(void)
{
#if SYM
    if (MAXS > 1) { same_pos(0); if (ns > 1) same_pos(1); }
    if (size > 0) vp_assert(data[at] == atv, "the data is never modified");
#else
    int i; for (i = 0; i < ns; i++) if (st[i].refs > 0) same_pos(i);
    { uint64_t k; for (k = 0; k < size; k++) vp_assert_x(data[k] == copy[k], "the data is never modified"); }
#endif
}
#define HAS(c) ((OPS[0]) == c || (sizeof(OPS) > 2 && OPS[sizeof(OPS) > 2 ? 1 : 0] == c) || (sizeof(OPS) > 3 && OPS[sizeof(OPS) > 3 ? 2 : 0] == c) || (sizeof(OPS) > 4 && OPS[sizeof(OPS) > 4 ? 3 : 0] == c) || (sizeof(OPS) > 5 && OPS[sizeof(OPS) > 5 ? 4 : 0] == c) || (sizeof(OPS) > 6 && OPS[sizeof(OPS) > 6 ? 5 : 0] == c))
static void step(int i)
{
    static const char ops[] = OPS; int k = (int)vp_pick_range("operation", 0, sizeof(ops) - 2);
    switch (ops[k]) {
        case 's': if (HAS('s')) op_seek(i); break;
        case 'r': if (HAS('r')) op_read(i); break;
        case 'c': if (HAS('c')) op_copy(i); break;
        case 'k': if (HAS('k')) op_clone(i); break;
        case 'a': if (HAS('a')) op_addref(i); break;
        case 'd': if (HAS('d')) op_release(i); break;
        case 'q': if (HAS('q')) op_query(i); break;
        case 'x': if (HAS('x')) op_refuse(i); break;
        case 't': if (HAS('t')) op_stat(i); break;
    }
}
static void create(void)
{
    IStream* s = &target; HRESULT hr; int how = (int)vp_pick_range("creation", 0, RES);
    vp_fail_mode = FAIL;
    if (how == 0) hr = memstream_create(data, (ULONG)size, &s);
    else {
        last_error = vp_u32("stale error"); vp_assume_x(last_error <= 0x7fffffff); res_step = (int)vp_pick_range("failing step", 0, 4); res_inst = &res_step;
        vp_assume_x(size > 0 || res_step != 0);
        hr = memstream_create_from_resource(res_inst, res_type, res_name, &s);
    }
    vp_fail_mode = 0;
    if (vp_alloc_failed || (how && res_step != 0)) { vp_assert_x(FAILED(hr), "a failing creation returns a failing result"); vp_assert(s == NULL && vp_live == 0, "a failing creation yields null"); return; }
    vp_assert(hr == S_OK && s != NULL && s != &target, "creation succeeds"); st[0].s = s; st[0].refs = 1; st[0].pos = 0; ns = 1; same_pos(0);
}
#ifdef THREADS
/* THREADS threads, each with a reference of its own: thread 0 runs its operations, and between any two memory accesses (made visible by the compiler's thread
 * instrumentation) of a thread any number of the next operations of the later threads run to completion, which can be interrupted by still later threads. */
static int armed, level; static IStream* shared;
static struct { int n, done, zeros, op[8]; ULONG r[8]; } th[3];      /* what each thread does and is told; an interface query is told no count */
static void run_op(int w)
{
    void* o = NULL; int i = th[w].done++, l = level; level = w;
    switch (th[w].op[i]) {
        case 0: th[w].r[i] = IStream_Release(shared); th[w].zeros += th[w].r[i] == 0; break;
        case 1: th[w].r[i] = IStream_AddRef(shared); break;
        default: vp_assert(IStream_QueryInterface(shared, &IID_IStream, &o) == S_OK && o == (void*)shared, "the interface is given");
    }
    level = l;
}
static void program(int w, int max) { int i, m = 1; for (i = 0; i < max; i++) { int op = (int)vp_pick_range("operation", 0, 2); if (op) { th[w].op[th[w].n++] = op; m++; } else break; } while (m-- > 0) th[w].op[th[w].n++] = 0; }
/* a local variable of the code under test: not shared */
#ifdef VP_SYMX
static int local(const void* a) { return vpi_objkind(a) == 1; }
#else
static const char* bottom_; static int local(const void* a) { return (const char*)a < bottom_ && (const char*)a >= (const char*)__builtin_frame_address(0); }
#endif
static void preempt(void) { int w; if (!armed) return; for (w = THREADS - 1; w > level; w--) while (th[w].done < th[w].n && vp_concretize(vp_bool("switch"))) run_op(w); }
/* the counts reported are those of one of the orders the operations can have happened in */
static int explain(ULONG v, int a, int b, int c)
{
    int at[3], w, all = 1; at[0] = a; at[1] = b; at[2] = c;
    for (w = 0; w < THREADS; w++) if (at[w] < th[w].n) {
        int op = th[w].op[at[w]]; ULONG x = op ? v + 1 : v - 1; all = 0;
        if ((op == 2 || vp_concretize(th[w].r[at[w]] == x)) && explain(x, a + (w == 0), b + (w == 1), c + (w == 2))) return 1;
    }
    return all;
}
static int inside(const void* a, const IID* i) { return (uintptr_t)a - (uintptr_t)i < sizeof(IID); }
static void hook(const void* a) { if (armed && !local(a) && !inside(a, &IID_IStream) && !inside(a, &IID_IUnknown) && !inside(a, &IID_ISequentialStream)) preempt(); }
#define HOOK(n) void __tsan_read##n(void* a) { hook(a); } void __tsan_write##n(void* a) { hook(a); } void __tsan_unaligned_read##n(void* a) { hook(a); } void __tsan_unaligned_write##n(void* a) { hook(a); } void __tsan_read_write##n(void* a) { hook(a); } void __tsan_volatile_read##n(void* a) { hook(a); } void __tsan_volatile_write##n(void* a) { hook(a); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_func_entry(void* a) { (void)a; } void __tsan_func_exit(void) { } void __tsan_init(void) { } void __tsan_read_range(void* a, size_t n) { (void)n; hook(a); } void __tsan_write_range(void* a, size_t n) { (void)n; hook(a); } void __tsan_vptr_update(void* a, void* b) { (void)a; (void)b; } void __tsan_vptr_read(void* a) { (void)a; }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); } void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
#define ATOMIC(n, T) T __tsan_atomic##n##_load(const volatile T* p, int o) { (void)o; preempt(); return *p; } void __tsan_atomic##n##_store(volatile T* p, T v, int o) { (void)o; preempt(); *p = v; } T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int o) { T r; (void)o; preempt(); r = *p; *p = r + v; return r; } T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int o) { T r; (void)o; preempt(); r = *p; *p = r - v; return r; } T __tsan_atomic##n##_exchange(volatile T* p, T v, int o) { T r; (void)o; preempt(); r = *p; *p = v; return r; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int f) { int r; (void)o; (void)f; preempt(); r = *p == *e; if (r) *p = v; else *e = *p; return r; } int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, f); } T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int o, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, o, f); return e; }
ATOMIC(32, int) ATOMIC(64, long long)
void __tsan_atomic_thread_fence(int o) { (void)o; preempt(); } void __tsan_atomic_signal_fence(int o) { (void)o; }
#else
static void preempt(void) { }
#endif
void harness(void)
{
    int i, k;
#if SYM
    size = vp_u32("size"); vp_assume(size <= MAXSIZE); data = vp_block(size); if (size > 0) { at = vp_u32("at"); vp_assume(at < size); atv = vp_u8("content"); data[at] = atv; } else at = ~0ull;
#else
    size = vp_pick_range("size", SIZELO, SIZE); data = vp_filled("data", size, copy);
#endif
    create();
    if (ns == 0) { vp_witness("refused"); return; }
#ifdef THREADS
#ifndef VP_SYMX
    bottom_ = __builtin_frame_address(0);
#endif
    shared = st[0].s; { int extra = (int)vp_pick_range("further reference", 0, 1), w, zeros = 0;
      for (w = 0; w < THREADS; w++) { program(w, w < 2 ? OPSN : LAST); if (w + extra) IStream_AddRef(shared); }
      armed = 1; while (th[0].done < th[0].n) run_op(0); armed = 0;
      for (w = 1; w < THREADS; w++) while (th[w].done < th[w].n) run_op(w);
      vp_assert(explain((ULONG)(THREADS + extra), 0, 0, 0), "the counts reported are those of some order of the operations");
      for (w = 0; w < THREADS; w++) zeros += th[w].zeros;
      vp_assert(zeros == !extra, "exactly one thread sees the last reference go");
      if (extra) { vp_assert(vp_live == 1, "the object lives as long as a reference exists"); vp_assert(IStream_Release(shared) == 0, "the count is exact"); }
      vp_assert(vp_live == 0, "the object is destroyed with the last reference"); }
#else
    for (k = 0; k < K; k++) {
        i = MAXS == 1 ? 0 : (int)vp_pick_range("stream", 0, (uint64_t)ns - 1);
        if (st[i].refs == 0) continue;
        step(i); verify_all();
    }
#if SYM
    op_release(0); if (MAXS > 1 && ns > 1) { same_pos(1); op_release(1); }
#else
    for (i = 0; i < ns; i++) { k = st[i].refs; while (k-- > 0) { op_release(i); verify_all(); } }
#endif
    vp_assert(vp_live == 0, "everything is released");
#endif
    vp_witness("end");
}
