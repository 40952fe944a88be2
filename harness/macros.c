/* misc/defs.h: every macro against its mathematical meaning, for every value */
#include "vp.h"
#undef MIN
#undef MAX
#include "misc/defs.h"
static double any_double(void) { union { uint64_t u; double d; } x; x.u = vp_u64("double"); vp_assume(x.d == x.d); return x.d; }
static float any_float(void) { union { uint32_t u; float d; } x; x.u = vp_u32("float"); vp_assume(x.d == x.d); return x.d; }
#define ANY_I8() ((signed char)vp_u8("i8"))
#define ANY_U8() vp_u8("u8")
#define ANY_I16() ((short)vp_u16("i16"))
#define ANY_U16() vp_u16("u16")
#define ANY_I32() ((int)vp_u32("i32"))
#define ANY_U32() ((unsigned)vp_u32("u32"))
#define ANY_I64() ((long long)vp_u64("i64"))
#define ANY_U64() ((unsigned long long)vp_u64("u64"))
#define A(c, m) vp_assert(c, m)
/* order and membership of the results; types of one signedness may be mixed */
#define ORDER(T1, A1, T2, A2, T3, A3) do { T1 a = A1; T2 b = A2; T3 c = A3; \
    A(MIN(a, b) <= a && MIN(a, b) <= b && (MIN(a, b) == a || MIN(a, b) == b), "MIN"); A(MAX(a, b) >= a && MAX(a, b) >= b && (MAX(a, b) == a || MAX(a, b) == b), "MAX"); \
    A(MIN3(a, b, c) <= a && MIN3(a, b, c) <= b && MIN3(a, b, c) <= c && (MIN3(a, b, c) == a || MIN3(a, b, c) == b || MIN3(a, b, c) == c), "MIN3"); \
    A(MAX3(a, b, c) >= a && MAX3(a, b, c) >= b && MAX3(a, b, c) >= c && (MAX3(a, b, c) == a || MAX3(a, b, c) == b || MAX3(a, b, c) == c), "MAX3"); \
    if (b <= c) A(a < b ? CLAMP(a, b, c) == b : a > c ? CLAMP(a, b, c) == c : CLAMP(a, b, c) == a, "CLAMP"); } while (0)
#define SIGN(T, A1, LOW) do { T a = A1; if ((LOW) == 0 || a != (LOW)) { A(ABS(a) >= 0 && (ABS(a) == a || ABS(a) == -a), "ABS"); A(a >= 0 ? ABS(a) == a : ABS(a) == -a, "ABS"); } } while (0)
#define SIGNU(T, A1) do { T a = A1; A(ABS(a) == a, "ABS"); } while (0)
static int imin(int a, int b) { if (a < b) return a; return b; }
static int imax(int a, int b) { if (a > b) return a; return b; }
static int iabs(int a) { if (a < 0) return 0 - a; return a; }
typedef struct { char c; short s; struct { char x; long y[3]; } in; union { int i; double d; } u; void* p; char tail[5]; unsigned bits : 3; long long last; } BOX;
struct tagged { int first; struct tagged* link; char body[3]; struct { short inner; } deep[2]; };
struct large { char pad[300]; int mid; char more[70000]; short end; }; /* offsets beyond 8 and 16 bits */
struct huge { char pad[5000000000]; int end; }; /* only its layout is used */
#define MEMBER(T, m) do { A(OFFSETOF(T, m) == (size_t)((char*)&b[i].m - (char*)&b[i]), "OFFSETOF"); A(CONTAINEROF(&b[i].m, T, m) == &b[i], "CONTAINEROF"); } while (0)
void harness(void)
{
    switch (MODE) {
        case 0: {
            ORDER(signed char, ANY_I8(), signed char, ANY_I8(), signed char, ANY_I8()); ORDER(short, ANY_I16(), short, ANY_I16(), short, ANY_I16()); ORDER(int, ANY_I32(), int, ANY_I32(), int, ANY_I32()); ORDER(long long, ANY_I64(), long long, ANY_I64(), long long, ANY_I64());
            ORDER(unsigned char, ANY_U8(), unsigned char, ANY_U8(), unsigned char, ANY_U8()); ORDER(unsigned short, ANY_U16(), unsigned short, ANY_U16(), unsigned short, ANY_U16()); ORDER(unsigned, ANY_U32(), unsigned, ANY_U32(), unsigned, ANY_U32()); ORDER(unsigned long long, ANY_U64(), unsigned long long, ANY_U64(), unsigned long long, ANY_U64());
            ORDER(signed char, ANY_I8(), long long, ANY_I64(), int, ANY_I32()); ORDER(long long, ANY_I64(), short, ANY_I16(), unsigned char, ANY_U8()); ORDER(unsigned, ANY_U32(), unsigned long, ANY_U64(), unsigned char, ANY_U8()); ORDER(int, ANY_I32(), unsigned short, ANY_U16(), long long, ANY_I64()); ORDER(long long, ANY_I64(), signed char, ANY_I8(), int, ANY_I32());
            SIGN(signed char, ANY_I8(), 0); SIGN(short, ANY_I16(), 0); SIGN(int, ANY_I32(), INT_MIN); SIGN(long, (long)vp_u64("i64"), LONG_MIN); SIGN(long long, ANY_I64(), LLONG_MIN); SIGNU(unsigned char, ANY_U8()); SIGNU(unsigned short, ANY_U16()); SIGNU(unsigned, ANY_U32()); SIGNU(unsigned long long, ANY_U64());
            break; }
        case 1: {
            ORDER(float, any_float(), float, any_float(), float, any_float()); ORDER(double, any_double(), double, any_double(), double, any_double()); ORDER(double, any_double(), float, any_float(), short, ANY_I16()); ORDER(int, ANY_I32(), double, any_double(), double, any_double());
            SIGN(float, any_float(), 0); SIGN(double, any_double(), 0);
            break; }
        case 2: { /* compound arguments, and the macro inside larger expressions */
            int a = ANY_I16(), b = ANY_I16(), c = ANY_I16(), d = ANY_I16(), e = ANY_I16(), t = vp_bool("t"), *p = &a, *q = &b; unsigned u = ANY_U32(), v = ANY_U32(), w = ANY_U32();
            if (PART == 0) {A(MIN(a | b, c & d) == imin(a | b, c & d), "MIN"); A(MIN(t ? a : b, t ? c : d) == imin(t ? a : b, t ? c : d), "MIN"); A(MIN(a + b, c - d) == imin(a + b, c - d), "MIN"); A(MIN(a == b, c < d) == imin(a == b, c < d), "MIN"); A(MIN(a ^ b, c || d) == imin(a ^ b, c || d), "MIN"); A(MIN(*p, -*q) == imin(*p, -*q), "MIN"); A(MIN(a && b, c ^ d) == imin(a && b, c ^ d), "MIN"); }
            if (PART == 1) {A(MAX(a | b, c & d) == imax(a | b, c & d), "MAX"); A(MAX(t ? a : b, t ? c : d) == imax(t ? a : b, t ? c : d), "MAX"); A(MAX(a + b, c - d) == imax(a + b, c - d), "MAX"); A(MAX(a == b, c < d) == imax(a == b, c < d), "MAX"); A(MAX(a ^ b, c || d) == imax(a ^ b, c || d), "MAX"); A(MAX(*p, -*q) == imax(*p, -*q), "MAX"); A(MAX(a && b, c ^ d) == imax(a && b, c ^ d), "MAX"); }
            if (PART == 2) {A(MIN(u >> 3, v << 2) <= u >> 3 && MIN(u >> 3, v << 2) <= v << 2, "MIN"); A(MAX(u >> 3, v << 2) >= u >> 3 && MAX(u >> 3, v << 2) >= v << 2, "MAX"); A(MIN(u, v) <= u, "MIN"); A(MAX(~u, v - w) >= ~u && MAX(~u, v - w) >= v - w, "MAX"); }
            if (PART == 3) {A(1 + MIN(a, b) == 1 + imin(a, b), "MIN"); A(MIN(a, b) - c == imin(a, b) - c, "MIN"); A(-MIN(a, b) == -imin(a, b), "MIN"); A(3 * MAX(a, b) + 1 == 3 * imax(a, b) + 1, "MAX"); A(MAX(a, b) - MIN(a, b) == imax(a, b) - imin(a, b), "MAX"); A(!MAX(a, b) == !imax(a, b), "MAX"); A((MIN(a, b) < c) == (imin(a, b) < c), "MIN"); A((t ? MIN(a, b) : MAX(a, b)) == (t ? imin(a, b) : imax(a, b)), "MIN/MAX"); }
            if (PART == 4) {A(MIN(MAX(a, b), MIN(c, d)) == imin(imax(a, b), imin(c, d)), "nested"); A(MAX(MIN3(a, b, c), MAX3(c, d, e)) == imax(imin(imin(a, b), c), imax(imax(c, d), e)), "nested"); }
            if (PART == 5) {A(MIN3(a | b, t ? c : d, d - e) == imin(imin(a | b, t ? c : d), d - e), "MIN3"); A(MAX3(a | b, t ? c : d, d - e) == imax(imax(a | b, t ? c : d), d - e), "MAX3"); A(MIN3(t ? a : b, c & d, t ? e : a) == imin(imin(t ? a : b, c & d), t ? e : a), "MIN3"); A(MAX3(t ? a : b, c & d, t ? e : a) == imax(imax(t ? a : b, c & d), t ? e : a), "MAX3"); A(2 * MIN3(a, b, c) - 1 == 2 * imin(imin(a, b), c) - 1, "MIN3"); A(-MAX3(a, b, c) == -imax(imax(a, b), c), "MAX3"); }
            if (PART == 6) {{ int lo = imin(c, d), hi = imax(c, d); A(CLAMP(a | b, lo, hi) == imin(imax(a | b, lo), hi), "CLAMP"); A(CLAMP(t ? a : b, t ? lo : lo - 1, t ? hi : hi + 1) == imin(imax(t ? a : b, lo - !t), hi + !t), "CLAMP"); A(CLAMP(a - b, lo - 1, hi + 1) == imin(imax(a - b, lo - 1), hi + 1), "CLAMP"); A(-CLAMP(a, lo, hi) == -imin(imax(a, lo), hi), "CLAMP"); A(5 * CLAMP(a, lo, hi) - 1 == 5 * imin(imax(a, lo), hi) - 1, "CLAMP"); } }
            if (PART == 7) {A(ABS(a - b) == iabs(a - b), "ABS"); A(ABS(-a) == iabs(a), "ABS"); A(ABS(t ? a : b) == iabs(t ? a : b), "ABS"); A(ABS(a | b) == iabs(a | b), "ABS"); A(ABS(a ^ b) == iabs(a ^ b), "ABS"); A(ABS(*p) == iabs(*p), "ABS"); A(-ABS(a) == -iabs(a), "ABS"); A(7 - ABS(a) == 7 - iabs(a), "ABS"); A(ABS(a) * 2 == iabs(a) * 2, "ABS"); A(ABS(ABS(a) - ABS(b)) == iabs(iabs(a) - iabs(b)), "ABS"); A(ABS(a == b) == (a == b), "ABS"); A(!ABS(a) == !a, "ABS"); }
            break; }
        default: { /* arrays and members */
            BOX b[3]; struct tagged g[2]; size_t i = vp_range("element", 0, 2), j; char ac[7]; int ai[1]; double ad[13]; BOX ab[4]; void* ap[11]; short m[5][9]; short (*pm)[9] = &m[2]; size_t n = vp_u32("n"); int t = vp_bool("t");
            A(SIZEOF_ARRAY(ac) == 7 && SIZEOF_ARRAY(ai) == 1 && SIZEOF_ARRAY(ad) == 13 && SIZEOF_ARRAY(ab) == 4 && SIZEOF_ARRAY(ap) == 11 && SIZEOF_ARRAY(m) == 5 && SIZEOF_ARRAY(m[0]) == 9 && SIZEOF_ARRAY(*pm) == 9 && SIZEOF_ARRAY("text") == 5 && SIZEOF_ARRAY(b[0].in.y) == 3 && SIZEOF_ARRAY(b->tail) == 5, "SIZEOF_ARRAY");
            A(n / SIZEOF_ARRAY(ad) == n / 13 && n % SIZEOF_ARRAY(ad) == n % 13 && 26 / SIZEOF_ARRAY(ad) == 2 && SIZEOF_ARRAY(ad) * 3 == 39 && sizeof SIZEOF_ARRAY(ad) == sizeof(size_t), "SIZEOF_ARRAY");
            MEMBER(BOX, c); MEMBER(BOX, s); MEMBER(BOX, in); MEMBER(BOX, in.y); MEMBER(BOX, in.y[2]); MEMBER(BOX, u); MEMBER(BOX, u.d); MEMBER(BOX, p); MEMBER(BOX, tail); MEMBER(BOX, tail[4]); MEMBER(BOX, last);
            j = (size_t)vp_bool("element"); A(CONTAINEROF(&g[j].deep[1].inner, struct tagged, deep[1].inner) == &g[j] && CONTAINEROF(&g[j].link, struct tagged, link) == &g[j] && OFFSETOF(struct tagged, deep[1]) == (size_t)((char*)&g[j].deep[1] - (char*)&g[j]), "CONTAINEROF");
            { long long* last = &b[0].last; A(CONTAINEROF(t ? last : &b[1].last, BOX, last) == (t ? &b[0] : &b[1]), "CONTAINEROF"); A(CONTAINEROF((void*)&b[i].s, BOX, s) == b + i, "CONTAINEROF"); A(CONTAINEROF(last, BOX, last) + i == b + i, "CONTAINEROF"); CONTAINEROF(&b[i].last, BOX, last)->c = (char)n; A(b[i].c == (char)n, "CONTAINEROF"); { const int* ci = (const int*)&b[i].u.i; A(CONTAINEROF(ci, BOX, u.i) == b + i, "CONTAINEROF"); } }
            A(sizeof(ac[OFFSETOF(BOX, tail) ? 0 : 1]) == 1 && 2 * OFFSETOF(BOX, s) == OFFSETOF(BOX, s) + OFFSETOF(BOX, s), "OFFSETOF");
            { static struct large b[2]; size_t i = (size_t)vp_bool("element"); static char big[70000]; struct huge* h = NULL; MEMBER(struct large, mid); MEMBER(struct large, more); MEMBER(struct large, more[65000]); MEMBER(struct large, end);
              A(SIZEOF_ARRAY(big) == 70000 && SIZEOF_ARRAY(b[0].pad) == 300 && SIZEOF_ARRAY(h->pad) == 5000000000 && OFFSETOF(struct huge, end) == 5000000000 && OFFSETOF(struct huge, pad[4999999999]) == 4999999999, "SIZEOF_ARRAY/OFFSETOF"); }
#define MAJOR 5
#define MINOR 31
            { static const char v[] = STRINGIZE(MAJOR.MINOR), x[] = STRINGIZE(a b), y[] = STRINGIZE(MAJOR); A(sizeof(v) == 5 && v[0] == '5' && v[1] == '.' && v[2] == '3' && v[3] == '1' && sizeof(x) == 4 && x[0] == 'a' && x[1] == ' ' && x[2] == 'b' && sizeof(y) == 2 && y[0] == '5', "STRINGIZE"); }
        }
    }
    vp_witness("end");
}
