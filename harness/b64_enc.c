/* encoder: exact text, length, terminator, untouched rest, size errors; all contents and dialects */
#include "vp.h"
#include "b64_ref.h"
#ifndef LO
#define LO 0
#endif
void harness(void)
{
    size_t n = vp_pick_range("n", LO, N), i, len; int r; char ref[2 * N + 16]; uint8_t* in; uint8_t copy[2 * N + 16], incopy[N + 1]; uint8_t* out; size_t osz; int extra;
    BASE64_OPTIONS o; const BASE64_OPTIONS* op = b64_dialect(&o);
    in = vp_filled("in", n, incopy);
    len = b64_ref_encode(incopy, n, ref, &o);
    extra = (int)vp_pick_range("room", 0, 3);        /* text length - 1 .. + 2 */
    if (len == 0 && extra == 0) return;
    osz = len + (size_t)extra - 1;
    out = vp_filled("out", osz, copy);
    r = base64_encode(in, (unsigned)n, (char*)out, (unsigned)osz, op);
    if (extra == 0) {
        vp_assert_x(r < 0, "a buffer smaller than the text is an error");
        vp_assert_same(out, copy, 0, osz, "nothing is written on error");
    } else {
        vp_assert_x(r == (int)len, "the text length is returned");
        vp_assert_same(out, (uint8_t*)ref, 0, len, "exactly the RFC 4648 text");
        if (osz > len) vp_assert_x(out[len] == 0, "terminator follows the text");
        if (osz > len + 1) vp_assert_same(out, copy, len + 1, osz, "nothing else is touched");
    }
    vp_assert_same(in, incopy, 0, n, "input untouched");
    vp_assert_x(base64_encode(in, (unsigned)n, NULL, (unsigned)osz, op) == (int)len + 1, "size query gives text length + 1");
    vp_witness("end"); (void)i;
}
