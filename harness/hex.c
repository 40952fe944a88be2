#include "vp.h"
#include "encode/hex.h"
#ifndef LO
#define LO 0
#endif
static int hexval(uint8_t c) { return (int)vp_ite((c >= '0') & (c <= '9'), c - '0', vp_ite((c >= 'a') & (c <= 'f'), c - 'a' + 10, vp_ite((c >= 'A') & (c <= 'F'), c - 'A' + 10, 16))); }
#if defined ENC
void harness(void)
{
    size_t n = vp_pick_range("n", LO, N), i, len = 2 * n, osz; int r, lower = (int)vp_bits("lower", 32), room = (int)vp_pick_range("room", 0, 3); uint8_t incopy[N + 1], copy[2 * N + 4]; char ref[2 * N + 2];
    uint8_t* in = vp_filled("in", n, incopy); uint8_t* out;
    if (n == 0 && room == 0) return;
    for (i = 0; i < n; i++) { int h = in[i] >> 4, l = in[i] & 15; uint8_t base = (uint8_t)vp_ite(lower != 0, 'a' - 10, 'A' - 10);
        ref[2 * i] = (char)vp_ite(h < 10, '0' + h, base + h); ref[2 * i + 1] = (char)vp_ite(l < 10, '0' + l, base + l); }
    osz = len + (size_t)room - 1; out = vp_filled("out", osz, copy);
    r = hex_encode(in, (unsigned)n, (char*)out, (unsigned)osz, lower);
    if (room == 0) { vp_assert_x(r == -1, "too small a buffer gives -1"); vp_assert_same(out, copy, 0, osz, "nothing is written on error"); }
    else {
        vp_assert_x(r == (int)len, "number of digits"); vp_assert_same(out, (uint8_t*)ref, 0, len, "two digits per byte, high digit first");
        if (osz > len) vp_assert_x(out[len] == 0, "terminator"); if (osz > len + 1) vp_assert_same(out, copy, len + 1, osz, "nothing else is touched");
    }
    vp_assert_same(in, incopy, 0, n, "input untouched");
    vp_assert_x(hex_encode(in, (unsigned)n, NULL, 0, lower) == (int)len + 1, "size query");
    vp_witness("end");
}
#elif defined LONG
void harness(void)
{
    size_t n = LEN, i; int r; uint8_t* in = vp_block(n); uint8_t* out = vp_block(2 * n); uint8_t* back = vp_block(n); static const char d[] = "0123456789ABCDEF"; int ok = 1;
    size_t w = LONG == 2 ? 1 : 4;
    for (i = 0; i < n; i++) in[i] = (i < w || i + w >= n) ? vp_u8("in") : (uint8_t)(i * 7 + (i >> 5));
    r = hex_encode(in, (unsigned)n, (char*)out, (unsigned)(2 * n), 0);
    vp_assert_x(r == (int)(2 * n), "number of digits (long input)");
    for (i = 0; i < n; i++) ok &= (out[2 * i] == (uint8_t)d[in[i] >> 4]) & (out[2 * i + 1] == (uint8_t)d[in[i] & 15]);
    vp_assert_x(ok, "digits (long input)");
#if LONG == 2
    r = hex_decode((char*)out, (unsigned)(2 * n), back, (unsigned)n);
    vp_assert_x(r == (int)n, "decoded size (long input)"); vp_assert_same(in, back, 0, n, "decoded bytes (long input)");
#endif
    vp_witness("end");
}
#elif defined SIZE
void harness(void)
{
    uint32_t n = vp_u32("n"); uint64_t len = 2 * (uint64_t)n; int r = hex_encode(NULL, n, NULL, 0, 0); size_t osz; uint8_t copy[16]; uint8_t* out; uint8_t* in;
    vp_assert_x((len + 1 > INT_MAX) | (r == (int)(len + 1)), "size query returns twice the size plus one");
    vp_assert_x((len + 1 <= INT_MAX) | (r < 0), "size query fails when the size is not representable");
    vp_assert_x(hex_decode(NULL, n, NULL, 0) == (int)(n / 2), "decoder size query");
    osz = vp_pick_range("osz", 0, 9);
    vp_assume(len > osz);
    in = vp_huge(n); out = vp_filled("out", osz, copy);
    r = hex_encode(in, n, (char*)out, (unsigned)osz, 1);
    vp_assert_x(r < 0, "too small a buffer is an error for every size");
    vp_assert_same(out, copy, 0, osz, "too small a buffer: nothing is written");
    vp_witness("end");
}
#elif defined DSIZE
/* decoder, every 32-bit size with a small output buffer */
void harness(void)
{
    uint32_t n = vp_u32("n"); size_t osz = vp_pick_range("osz", 0, 5); uint8_t copy[16]; uint8_t* out; char* in; int r;
    vp_assume(n / 2 > osz);
    in = vp_huge(n); out = vp_filled("out", osz, copy);
    r = hex_decode(in, n, out, (unsigned)osz);
    vp_assert_x(r == -1, "too small an output buffer gives -1 for every size");
    vp_assert_same(out, copy, 0, osz, "nothing is written");
    vp_witness("end");
}
#else /* DEC */
void harness(void)
{
    size_t n = vp_pick_range("n", LO, N), i, need = n / 2, osz; int r, ok = n % 2 == 0, room = (int)vp_pick_range("room", 0, 2); uint8_t incopy[N + 1], copy[N + 4], ref[N + 1];
    uint8_t* out;
#ifdef WINDOW
    /* all bytes but WINDOW consecutive ones are digits known to the solver as constants */
    static const char digits[] = "0123456789abcdefABCDEF"; size_t w = vp_pick_range("window", 0, N - 1);
    uint8_t* in = vp_block(n);
    if (w >= n) return;
    for (i = 0; i < n; i++) incopy[i] = in[i] = (i >= w && i < w + WINDOW) ? vp_u8("in") : (uint8_t)digits[(i * 5 + 7) % 22];
#else
    uint8_t* in = vp_filled("in", n, incopy);
#endif
    if (need == 0 && room == 0) return;
    for (i = 0; i < n; i++) ok &= hexval(in[i]) < 16;
    for (i = 0; i < need; i++) ref[i] = (uint8_t)(hexval(in[2 * i]) << 4 | hexval(in[2 * i + 1]));
    osz = need + (size_t)room - 1; out = vp_filled("out", osz, copy);
    vp_assert_x(hex_decode((char*)in, (unsigned)n, NULL, 0) == (int)need, "size query");
    r = hex_decode((char*)in, (unsigned)n, out, (unsigned)osz);
    if (room == 0) { vp_assert_x(r == -1, "too small a buffer gives -1"); }
    else {
        vp_assert_x(r == (int)vp_ite(ok, need, (uint64_t)-1), "accepts exactly even-length hex text");
        if (r >= 0) vp_assert_same(out, ref, 0, need, "decoded bytes");
    }
    vp_assert_same(out, copy, need < osz ? need : osz, osz, "at most half the input size is written");
    vp_assert_same(in, incopy, 0, n, "input untouched");
    vp_witness("end");
}
#endif
