/* decode(encode(x)) == x: padded, pad disabled, padding stripped */
#include "vp.h"
#include "b64_ref.h"
#ifndef LO
#define LO 0
#endif
void harness(void)
{
    size_t n = vp_pick_range("n", LO, N), len; int r; uint8_t* in; uint8_t copy[N + 4], incopy[N + 1]; char* text; uint8_t* out; size_t room;
    BASE64_OPTIONS o; const BASE64_OPTIONS* op = b64_dialect(&o);
    in = vp_filled("in", n, incopy);
    text = vp_block((n + 2) / 3 * 4);
    r = base64_encode(in, (unsigned)n, text, (unsigned)((n + 2) / 3 * 4), op);
    vp_assert(r >= 0, "encoding succeeds");
    len = (size_t)r;
    if (o.pad && n % 3 && vp_pick_range("strip", 0, 1)) { len -= 3 - n % 3; char* t = vp_block(len); memcpy(t, text, len); text = t; }
    r = base64_decode(text, (unsigned)len, NULL, 0, op);
    vp_assert_x(r == (int)n, "size query gives the original size");
    room = vp_pick_range("room", 0, 1);
    out = vp_filled("out", n + room, copy);
    r = base64_decode(text, (unsigned)len, out, (unsigned)(n + room), op);
    vp_assert_x(r == (int)n, "decoding returns the original size");
    vp_assert_same(out, incopy, 0, n, "decoding returns the original bytes");
    vp_assert_same(out, copy, n, n + room, "nothing beyond is written");
    vp_witness("end");
}
