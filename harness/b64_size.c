/* every 32-bit input size */
#include "vp.h"
#include "b64_ref.h"
void harness(void)
{
    uint32_t n = vp_u32("n"); uint64_t len, full = ((uint64_t)n + 2) / 3 * 4; BASE64_OPTIONS o; int r; uint8_t copy[16]; uint8_t* out; size_t osz;
    const BASE64_OPTIONS* op = b64_dialect(&o); uint8_t* in;
    uint32_t m = n % 3;
    len = vp_ite(o.pad != 0, full, full - vp_ite(m == 1, 2, vp_ite(m == 2, 1, 0)));
    r = base64_encode(NULL, n, NULL, 0, op);
    vp_assert_x((len + 1 > INT_MAX) | (r == (int)(len + 1)), "size query returns text length + 1");
    vp_assert_x((len + 1 <= INT_MAX) | (r < 0), "size query fails when the size is not representable");
    osz = vp_pick_range("osz", 0, 9);
    vp_assume(len > osz);
    in = vp_huge(n); out = vp_filled("out", osz, copy);
    r = base64_encode(in, n, (char*)out, (unsigned)osz, op);
    vp_assert_x(r < 0, "too small a buffer is an error for every size");
    vp_assert_same(out, copy, 0, osz, "too small a buffer: nothing is written");
    vp_witness("end");
}
