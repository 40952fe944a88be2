/* scalar values: MODE 0 storing and reading back, 1 conversion to integers, 2 conversion to float/double, 3 compatibility */
#include "vp.h"
#include <string.h>
#include "data/value.h"
#ifndef TLO
#define TLO 0
#define THI 10
#endif
static VALUE box[3];
enum { T_NULL = VALUE_NULL, T_BOOL = VALUE_BOOL };
static const VALUE_TYPE types[] = { VALUE_NULL, VALUE_BOOL, VALUE_INT32, VALUE_UINT32, VALUE_INT64, VALUE_UINT64, VALUE_FLOAT, VALUE_DOUBLE, VALUE_STRING, VALUE_ARRAY, VALUE_DICT };
static uint64_t bits;   /* the stored pattern */
static float asf(uint64_t b) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
static double asd(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static int store(VALUE* v, VALUE_TYPE t)
{
    switch (t) {
        case VALUE_BOOL: return value_init_bool(v, (int)(uint32_t)bits);
        case VALUE_INT32: return value_init_int32(v, (int32_t)(uint32_t)bits);
        case VALUE_UINT32: return value_init_uint32(v, (uint32_t)bits);
        case VALUE_INT64: return value_init_int64(v, (int64_t)bits);
        case VALUE_UINT64: return value_init_uint64(v, bits);
        case VALUE_FLOAT: return value_init_float(v, asf(bits));
        case VALUE_DOUBLE: return value_init_double(v, asd(bits));
        case VALUE_STRING: return value_init_string_(v, "\0017", 2);
        case VALUE_ARRAY: return value_init_array(v);
        case VALUE_DICT: return value_init_dict(v);
        default: value_init_null(v); return 0;
    }
}
static int is_num(VALUE_TYPE t) { return t == VALUE_INT32 || t == VALUE_UINT32 || t == VALUE_INT64 || t == VALUE_UINT64 || t == VALUE_FLOAT || t == VALUE_DOUBLE; }
/* exact arithmetic on the bit pattern: is it finite, and sign / rounded magnitude (half away from zero) / has a fraction / magnitude >= 2^65 */
static int finite, neg, frac, huge; static uint64_t mag; static int wrap;
static void dissect(VALUE_TYPE t)
{
    int e, w = t == VALUE_FLOAT ? 23 : 52; uint64_t m;
    if (t == VALUE_FLOAT) { neg = (int)(bits >> 31 & 1); e = (int)(bits >> 23 & 255); m = bits & 0x7fffff; finite = e != 255; e -= 127; if (e == -127) e = -126; else m |= 0x800000; }
    else { neg = (int)(bits >> 63); e = (int)(bits >> 52 & 2047); m = bits & 0xfffffffffffffULL; finite = e != 2047; e -= 1023; if (e == -1023) e = -1022; else m |= 1ULL << 52; }
    mag = 0; frac = 0; huge = 0;
    if (e > 63) { huge = m != 0; return; }
    if (e >= w) { mag = m << (e - w); return; }
    if (e < -1) { frac = m != 0; return; }
    if (e == -1) { frac = m != 0; mag = m >> w; return; }       /* in [1/2, 1): rounds to 1 (m has bit w set) */
    { int s = w - e; uint64_t rest = m & ((1ULL << s) - 1); mag = m >> s; frac = rest != 0; if (rest >> (s - 1)) mag++; }
}
/* the stored number as sign and magnitude; rounded when it is a float */
static void number(VALUE_TYPE t)
{
    finite = 1; frac = 0; huge = 0;
    switch (t) {
        case VALUE_INT32: neg = (int32_t)bits < 0; mag = neg ? (uint64_t)0 - (uint64_t)(int64_t)(int32_t)bits : (uint32_t)bits; break;
        case VALUE_UINT32: neg = 0; mag = (uint32_t)bits; break;
        case VALUE_INT64: neg = (int64_t)bits < 0; mag = neg ? (uint64_t)0 - bits : bits; break;
        case VALUE_UINT64: neg = 0; mag = bits; break;
        default: dissect(t);
    }
}
/* does sign/magnitude fit the integer type */
static int fits(VALUE_TYPE t)
{
    if (!finite || huge) return 0;
    switch (t) {
        case VALUE_INT32: return neg ? mag <= 0x80000000ULL : mag <= 0x7fffffffULL;
        case VALUE_UINT32: return neg ? mag == 0 : mag <= 0xffffffffULL;
        case VALUE_INT64: return neg ? mag <= 0x8000000000000000ULL : mag <= 0x7fffffffffffffffULL;
        default: return neg ? mag == 0 : 1;
    }
}
static uint64_t modular(void) { return neg ? (uint64_t)0 - mag : mag; }
static uint64_t get(const VALUE* v, VALUE_TYPE t)
{
    switch (t) { case VALUE_INT32: return (uint32_t)value_int32(v); case VALUE_UINT32: return value_uint32(v); case VALUE_INT64: return (uint64_t)value_int64(v); default: return value_uint64(v); }
}
static uint64_t cut(uint64_t x, VALUE_TYPE t) { return t == VALUE_INT32 || t == VALUE_UINT32 ? (uint32_t)x : x; }
void harness(void)
{
    VALUE* v = &box[1]; VALUE was; VALUE_TYPE t; int i;
    for (i = 0; i < 48; i++) ((uint8_t*)box)[i] = vp_u8("junk");
    bits = vp_u64("bits");
#if MODE == 0
    { VALUE before = box[0], after = box[2];
    t = types[vp_pick_range("type", 0, 10)];
    vp_assert(store(v, t) == 0, "initialization"); vp_assert(value_type(v) == t, "type");
    vp_assert(!value_is_new(v), "an explicitly initialized value is not new");
    vp_assert(value_bool(v) == (t == VALUE_BOOL ? ((uint32_t)bits != 0) : -1), "bool getter");
    if (t == VALUE_INT32) vp_assert(value_int32(v) == (int32_t)(uint32_t)bits, "int32 read back"); else if (!is_num(t)) vp_assert(value_int32(v) == -1, "int32 of a non-number");
    if (t == VALUE_UINT32) vp_assert(value_uint32(v) == (uint32_t)bits, "uint32 read back"); else if (!is_num(t)) vp_assert(value_uint32(v) == UINT32_MAX, "uint32 of a non-number");
    if (t == VALUE_INT64) vp_assert(value_int64(v) == (int64_t)bits, "int64 read back"); else if (!is_num(t)) vp_assert(value_int64(v) == -1, "int64 of a non-number");
    if (t == VALUE_UINT64) vp_assert(value_uint64(v) == bits, "uint64 read back"); else if (!is_num(t)) vp_assert(value_uint64(v) == UINT64_MAX, "uint64 of a non-number");
    if (t == VALUE_FLOAT) vp_assert(fbits(value_float(v)) == (uint32_t)bits, "float read back"); else if (!is_num(t)) vp_assert(fbits(value_float(v)) == 0xbf800000u, "float of a non-number");
    if (t == VALUE_DOUBLE) vp_assert(dbits(value_double(v)) == bits, "double read back"); else if (!is_num(t)) vp_assert(dbits(value_double(v)) == 0xbff0000000000000ULL, "double of a non-number");
    if (t != VALUE_STRING) vp_assert(value_string(v) == NULL && value_string_length(v) == 0, "string getters");
    if (t != VALUE_ARRAY) vp_assert(value_array_get(v, 0) == NULL && value_array_size(v) == 0 && value_array_get_all(v) == NULL && value_array_append(v) == NULL && value_array_remove(v, 0) == -1, "array functions");
    if (t != VALUE_DICT) vp_assert(value_dict_get_(v, "", 0) == NULL && value_dict_size(v) == 0 && value_dict_flags(v) == 0 && value_dict_get_or_add_(v, "", 0) == NULL && value_dict_remove_(v, "", 0) == -1, "dictionary functions");
    vp_assert(value_type(v) == t, "getters leave the type alone");
    value_fini(v);
    vp_assert(value_type(v) == VALUE_NULL && !value_is_new(v), "null after finishing"); vp_assert(vp_live == 0, "no memory left");
    value_fini(v); value_fini(NULL);
    vp_assert(memcmp(&before, &box[0], sizeof(VALUE)) == 0 && memcmp(&after, &box[2], sizeof(VALUE)) == 0, "neighbouring memory is untouched");
    vp_assert(value_type(NULL) == VALUE_NULL && value_bool(NULL) == -1 && value_int32(NULL) == -1 && value_uint64(NULL) == UINT64_MAX && value_string(NULL) == NULL && store(NULL, t) == (t == VALUE_NULL ? 0 : -1) && !value_is_new(NULL), "a missing value");
    { VALUE z = VALUE_NULL_INITIALIZER; vp_assert(value_type(&z) == VALUE_NULL && !value_is_new(&z), "static initializer"); } }
#else
    t = types[vp_pick_range("type", FROM, TO)];
#ifdef RANGE_LO
    /* split of the exponent range to keep the solver fast */
    { uint64_t e = t == VALUE_FLOAT ? bits >> 23 & 255 : bits >> 52 & 2047; vp_assume(e >= RANGE_LO && e <= RANGE_HI); }
#endif
    vp_assert(store(v, t) == 0, "initialization"); memcpy(&was, v, sizeof was);
    number(t);
#if MODE == 1
    { VALUE_TYPE to = types[vp_pick_range("to", 2, 5)];
    if (t == VALUE_FLOAT || t == VALUE_DOUBLE) vp_assume(fits(to));
    vp_assert(get(v, to) == cut(modular(), to), "integer getter"); }
#elif MODE == 4
    if (t == VALUE_FLOAT) vp_assert(fbits(value_float(v)) == (uint32_t)bits, "float read back"); else vp_assert(dbits(value_double(v)) == bits, "double read back");
#elif MODE == 2
    switch (t) {
        case VALUE_INT32: vp_assert(fbits(value_float(v)) == fbits((float)(int32_t)(uint32_t)bits) && dbits(value_double(v)) == dbits((double)(int32_t)(uint32_t)bits), "float of int32"); break;
        case VALUE_UINT32: vp_assert(fbits(value_float(v)) == fbits((float)(uint32_t)bits) && dbits(value_double(v)) == dbits((double)(uint32_t)bits), "float of uint32"); break;
        case VALUE_INT64: vp_assert(fbits(value_float(v)) == fbits((float)(int64_t)bits) && dbits(value_double(v)) == dbits((double)(int64_t)bits), "float of int64"); break;
        case VALUE_UINT64: vp_assert(fbits(value_float(v)) == fbits((float)bits) && dbits(value_double(v)) == dbits((double)bits), "float of uint64"); break;
        case VALUE_FLOAT: if (asf(bits) == asf(bits)) vp_assert(dbits(value_double(v)) == dbits((double)asf(bits)), "double of float"); else vp_assert(value_double(v) != value_double(v), "NaN stays NaN"); break;
        default: if (asd(bits) == asd(bits)) vp_assert(fbits(value_float(v)) == fbits((float)asd(bits)), "float of double"); else vp_assert(value_float(v) != value_float(v), "NaN stays NaN"); break;
    }
#else
    { VALUE_TYPE to = types[vp_pick_range("to", TLO, THI)]; int exp;
    if (to == t) exp = 1; else if (!is_num(t) || !is_num(to)) exp = 0;
    else if (to == VALUE_FLOAT || to == VALUE_DOUBLE) exp = 1;
    else exp = !frac && fits(to);
    vp_assert((value_is_compatible(v, to) != 0) == exp, "compatibility");
    if (TLO < 6 && THI > 1 && exp && is_num(t) && to != VALUE_FLOAT && to != VALUE_DOUBLE) vp_assert(get(v, to) == cut(modular(), to), "a compatible integer is read exactly"); }
#endif
    vp_assert(memcmp(&was, v, sizeof was) == 0, "queries do not modify the value");
#endif
    vp_witness("end");
}
