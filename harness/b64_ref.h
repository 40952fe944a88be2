#include "encode/base64.h"
/* any dialect whose 64 alphabet characters and padding are distinct */
static int b64_core(uint8_t c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')); }
static const BASE64_OPTIONS* b64_dialect(BASE64_OPTIONS* o)
{
#ifndef DIALECTS
#define DIALECTS 2
#endif
    switch ((int)vp_pick_range("dialect", 0, DIALECTS)) {
    case 0: o->ch62 = '+'; o->ch63 = '/'; o->pad = '='; return NULL;
    case 1: o->ch62 = (char)vp_u8("ch62"); o->ch63 = (char)vp_u8("ch63"); o->pad = (char)vp_u8("pad");
        vp_assume_x(o->pad != 0); vp_assume_x((o->pad != o->ch62) & (o->pad != o->ch63) & (1 ^ b64_core((uint8_t)o->pad))); break;
    default: o->ch62 = (char)vp_u8("ch62"); o->ch63 = (char)vp_u8("ch63"); o->pad = 0; break;
    }
    vp_assume_x((o->ch62 != o->ch63) & (1 ^ b64_core((uint8_t)o->ch62)) & (1 ^ b64_core((uint8_t)o->ch63)));
    return o;
}
/* the reference works on tables, like most implementations do, so that equal results are equal terms */
static char b64_tab[64]; static uint8_t b64_rev[256];
static void b64_tables(const BASE64_OPTIONS* o)
{
    int i;
    for (i = 0; i < 26; i++) b64_tab[i] = (char)('A' + i), b64_tab[26 + i] = (char)('a' + i);
    for (i = 0; i < 10; i++) b64_tab[52 + i] = (char)('0' + i);
    b64_tab[62] = o->ch62; b64_tab[63] = o->ch63;
    for (i = 0; i < 256; i++) b64_rev[i] = 0xff;
    for (i = 0; i < 64; i++) b64_rev[(uint8_t)b64_tab[i]] = (uint8_t)i;
}
#define b64_char(v, o) b64_tab[(uint8_t)(v) & 63]
/* value of a character, 255 when it is outside the alphabet */
#define b64_val(c, o) b64_rev[(uint8_t)(c)]
static size_t b64_ref_encode(const uint8_t* in, size_t n, char* out, const BASE64_OPTIONS* o)
{
    size_t i, len = 0;
    b64_tables(o);
    for (i = 0; i < n; i += 3) {
        unsigned v = (unsigned)in[i] << 16;
        if (i + 1 < n) v |= (unsigned)in[i + 1] << 8;
        if (i + 2 < n) v |= (unsigned)in[i + 2];
        out[len++] = b64_char(v >> 18, o); out[len++] = b64_char(v >> 12, o);
        if (i + 1 < n) out[len++] = b64_char(v >> 6, o); else if (o->pad) out[len++] = o->pad;
        if (i + 2 < n) out[len++] = b64_char(v, o); else if (o->pad) out[len++] = o->pad;
    }
    return len;
}
