/* long inputs: LEN bytes, the first and last few symbolic */
#include "vp.h"
#include "b64_ref.h"
void harness(void)
{
    static char ref[2 * LEN]; static uint8_t back[LEN]; size_t n = LEN - vp_pick_range("short", 0, 2), i, len; int r; uint8_t* in = vp_block(n); char* out;
    BASE64_OPTIONS o = { '+', '/', '=' };
    for (i = 0; i < n; i++) in[i] = (i < 6 || i + 8 > n) ? vp_u8("in") : (uint8_t)(i * 7 + (i >> 5));
    len = b64_ref_encode(in, n, ref, &o); out = vp_block(len);
    r = base64_encode(in, (unsigned)n, out, (unsigned)len, NULL);
    vp_assert_x(r == (int)len, "the text length is returned (long input)");
    vp_assert_same((uint8_t*)out, (uint8_t*)ref, 0, len, "exactly the RFC 4648 text (long input)");
#ifdef DECODE
    r = base64_decode(ref, (unsigned)len, back, (unsigned)n, NULL);
    vp_assert_x(r == (int)n, "decoded size (long input)");
    vp_assert_same(back, in, 0, n, "decoded bytes (long input)");
    back[0] = (uint8_t)~back[0];
    i = (size_t)vp_pick_range("damage", 0, 1) ? 5 : len - 5; ref[i] = '!';
    vp_assert_x(base64_decode(ref, (unsigned)len, back, (unsigned)n, NULL) < 0, "damaged long text is rejected");
#endif
    vp_witness("end");
}
