/* decoder on arbitrary bytes */
#include "vp.h"
#include "b64_ref.h"
#ifndef LO
#define LO 0
#endif
void harness(void)
{
    size_t n = vp_pick_range("n", LO, N), m = n, i, j, need; int r, ok = 1; uint8_t* in; uint8_t copy[N + 8], incopy[N + 1], ref[N + 4]; uint8_t* out; size_t osz; int room;
    BASE64_OPTIONS o; const BASE64_OPTIONS* op = b64_dialect(&o); unsigned v[N + 4];
    in = vp_filled("in", n, incopy);
    /* how much padding the text carries: 0, 1 or 2 characters */
    if (o.pad && n > 0 && n % 4 == 0) {
        int p1 = (in[n - 1] == (uint8_t)o.pad), p2 = p1 & (in[n - 2] == (uint8_t)o.pad);
        m = n - (size_t)vp_concretize(vp_ite(p2, 2, vp_ite(p1, 1, 0)));
    }
    b64_tables(&o);
    for (i = 0; i < m; i++) { v[i] = b64_val(in[i], &o); ok &= v[i] != 255; }
    need = m / 4 * 3;
    for (i = 0, j = 0; i + 4 <= m; i += 4) { ref[j++] = (uint8_t)(v[i] << 2 | v[i + 1] >> 4); ref[j++] = (uint8_t)(v[i + 1] << 4 | v[i + 2] >> 2); ref[j++] = (uint8_t)(v[i + 2] << 6 | v[i + 3]); }
    switch (m % 4) {
    case 0: break;
    case 1: ok = 0; break;
    case 2: ok &= (v[m - 1] & 15) == 0; need += 1; ref[j++] = (uint8_t)(v[m - 2] << 2 | v[m - 1] >> 4); break;
    case 3: ok &= (v[m - 1] & 3) == 0; need += 2; ref[j++] = (uint8_t)(v[m - 3] << 2 | v[m - 2] >> 4); ref[j++] = (uint8_t)(v[m - 2] << 4 | v[m - 1] >> 2); break;
    }
    r = base64_decode((char*)in, (unsigned)n, NULL, 0, op);
    vp_assert_x((1 ^ ok) | (r == (int)need), "size query gives the decoded size of a canonical text");
    vp_assert_x(ok | (r < 0), "size query rejects a text that is not canonical");
    room = (int)vp_pick_range("room", 0, 2);
    if (need == 0 && room == 0) return;
    osz = need + (size_t)room - 1;
    out = vp_filled("out", osz, copy);
    r = base64_decode((char*)in, (unsigned)n, out, (unsigned)osz, op);
    if (room == 0) {
        vp_assert_x(r < 0, "too small an output buffer is an error");
        vp_assert_same(out, copy, 0, osz, "nothing is written on error");
    } else {
        vp_assert_x((1 ^ ok) | (r == (int)need), "canonical text is decoded");
        vp_assert_x(ok | (r < 0), "text that is not canonical is rejected");
        if (r >= 0) vp_assert_same(out, ref, 0, need, "decoded bytes");
        vp_assert_same(out, copy, need, osz, "at most the decoded length is written");
    }
    vp_assert_same(in, incopy, 0, n, "input untouched");
    vp_witness("end");
}
