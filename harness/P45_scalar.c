// P45: scalar helpers of the math module: rounding, remainders, signs, half floats, elementary functions
#include "vp.h"
#include <math.h>
#ifdef VP_X
#define TOL 0.001
#else
#define TOL 0.0005
#endif
static int near_(double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; }
static unsigned bits(float f) { union { float f; unsigned u; } c; c.f = f; return c.u; }
static zpl_u64 bits64(double f) { union { double f; zpl_u64 u; } c; c.f = f; return c.u; }
//@ x=h_round32 q="T=100,J=8" t="T=600,J=8" what="for every float: floor, ceil and round give the whole number below, above and nearest (halves away from zero), leave large values, infinities and NaN alone"
void h_round32(void) {
    unsigned u = nd_u32(), ex = (u >> 23) & 255, neg = u >> 31; union { unsigned u; float f; } c; c.u = u; float x = c.f;
    float fl = zpl_floor(x), ce = zpl_ceil(x), ro = zpl_round(x);
    if (ex >= 127 + 23) { if (x == x) CHECK(bits(fl) == u && bits(ce) == u && bits(ro) == u, "already whole"); else CHECK(fl != fl && ce != ce && ro != ro, "not a number stays so"); }
    else { /* integers: x = sign * m * 2^(ex - 150) */
        unsigned m = ex ? (u & 0x7fffff) | 0x800000 : 0, sh = 150 - ex, w = sh > 24 ? 0 : m >> sh, fr = sh > 24 ? m || (u & 0x7fffff) : (m & ((1u << sh) - 1)) != 0 || (!ex && (u & 0x7fffff)), half = sh > 24 ? 0 : (m >> (sh - 1)) & 1;
        int lo = neg ? -(int)w - (fr ? 1 : 0) : (int)w, hi = neg ? -(int)w : (int)w + (fr ? 1 : 0), nr = neg ? -(int)(w + half) : (int)(w + half);
        CHECK(fl == (float)lo, "floor"); CHECK(ce == (float)hi, "ceil"); CHECK(ro == (float)nr, "round"); }
    REACHED();
}
//@ x=h_round64 q="T=100,J=8" t="T=600,J=8" what="the same for every double"
void h_round64(void) {
    zpl_u64 u = nd_u64(), ma = u & 0xfffffffffffffull; unsigned ex = (unsigned)(u >> 52) & 2047, neg = (unsigned)(u >> 63); union { zpl_u64 u; double f; } c; c.u = u; double x = c.f;
    double fl = zpl_floor64(x), ce = zpl_ceil64(x), ro = zpl_round64(x);
    if (ex >= 1023 + 52) { if (x == x) CHECK(bits64(fl) == u && bits64(ce) == u && bits64(ro) == u, "already whole"); else CHECK(fl != fl && ce != ce && ro != ro, "not a number stays so"); }
    else {
        zpl_u64 m = ex ? ma | 0x10000000000000ull : 0; unsigned sh = 1075 - ex; zpl_u64 w = sh > 53 ? 0 : m >> sh, half = sh > 53 ? 0 : (m >> (sh - 1)) & 1; unsigned fr = sh > 53 ? m || ma : (m & ((1ull << sh) - 1)) != 0 || (!ex && ma);
        zpl_i64 lo = neg ? -(zpl_i64)w - (fr ? 1 : 0) : (zpl_i64)w, hi = neg ? -(zpl_i64)w : (zpl_i64)w + (fr ? 1 : 0), nr = neg ? -(zpl_i64)(w + half) : (zpl_i64)(w + half);
        CHECK(fl == (double)lo, "floor"); CHECK(ce == (double)hi, "ceil"); CHECK(ro == (double)nr, "round"); }
    REACHED();
}
//@ x=h_sign q="T=60,J=2" t="T=300,J=4" what="copying a sign takes all bits but the sign from one and the sign from the other; absolute value and sign of a double"
void h_sign(void) {
    union { unsigned u; float f; } a, b; a.u = nd_u32(); b.u = nd_u32(); ASSUME((a.u & 0x7fffffff) <= 0x7f800000); CHECK(bits(zpl_copy_sign(a.f, b.f)) == ((a.u & 0x7fffffff) | (b.u & 0x80000000)), "float");
    union { zpl_u64 u; double f; } c, d; c.u = nd_u64(); d.u = nd_u64(); ASSUME((c.u << 1 >> 1) <= 0x7ff0000000000000ull); CHECK(bits64(zpl_copy_sign64(c.f, d.f)) == ((c.u << 1 >> 1) | (d.u >> 63 << 63)), "double");
    CHECK(zpl_abs64(c.f) == (c.u >> 63 ? -c.f : c.f) && zpl_abs64(c.f) >= 0, "absolute value"); CHECK(zpl_sign64(c.f) == (c.f < 0 ? -1.0 : 1.0), "sign"); REACHED();
}
//@ x=h_half q="T=100,J=8" t="T=600,J=8" what="every float becomes the nearest half float (halves away from zero; overflow to infinity, NaN stays NaN)"
void h_half(void) {
    unsigned u = nd_u32(); union { unsigned u; float f; } c; c.u = u; unsigned h = (unsigned short)zpl_float_to_half(c.f), s = u >> 31, e = (u >> 23) & 255, m = u & 0x7fffff; CHECK(h >> 15 == s, "sign"); h &= 0x7fff;
    if (e == 255) { if (m) CHECK(h > 0x7c00, "not a number stays so"); else CHECK(h == 0x7c00, "infinity"); }
    else if (e >= 113) { zpl_u64 q = (((zpl_u64)(e - 112) << 23 | m) + 0x1000) >> 13; CHECK(h == (q >= 0x7c00 ? 0x7c00 : q), "nearest half float"); }
    else if (e >= 102) { unsigned sh = 126 - e; CHECK(h == ((m | 0x800000) + (1u << (sh - 1))) >> sh, "nearest small half float"); }
    else CHECK(h == 0, "too small"); REACHED();
}
//@ x=h_unhalf q="T=100,J=8" t="T=600,J=8" what="every half float becomes the float of the same value, and converts back to itself"
void h_unhalf(void) {
    unsigned h = nd_u16(), e = (h >> 10) & 31, m = h & 1023; float f = zpl_half_to_float((zpl_half)h); unsigned u = bits(f); CHECK(u >> 31 == h >> 15, "sign"); u &= 0x7fffffff;
    if (e == 31) { if (m) CHECK(u > 0x7f800000, "not a number"); else CHECK(u == 0x7f800000, "infinity"); }
    else if (e) CHECK(u == ((e + 112) << 23 | m << 13), "value");
    else { float v = (float)m * (1.0f / 16777216.0f); CHECK(u == bits(v), "small value"); }
    if (e != 31 || !m) CHECK((unsigned short)zpl_float_to_half(f) == h, "back to the half float"); REACHED();
}
static float sf(float a) { float f = nd_f32(); ASSUME(f >= -a && f <= a); return f; }
//@ x=h_mod q="T=100,J=8" t="T=800,J=8,NY=8,NR=40" opts="-real 2" what="remainder and modulus leave a whole number of divisors: the remainder at most half of one, the modulus less than one and of the dividend's sign, for divisors of a list, dividends of up to 12 (thorough: 40) divisors and both widths"
#ifndef NY
#define NY 6
#endif
#ifndef NR
#define NR 12
#endif
void h_mod(void) {
    static const float Y[8] = {1, -3, 0.25f, 360, -2.5f, 7, 0.1f, 100}; float y = Y[nd_pick(0, NY - 1)], a = y < 0 ? -y : y, x = sf(NR * a), r, q; int d = nd_bool();
    r = d ? (float)zpl_remainder64(x, y) : zpl_remainder(x, y); q = (x - r) / y; CHECK(near_(q, (float)(int)(q + (q < 0 ? -0.5f : 0.5f))), "whole number of divisors"); CHECK(r <= a / 2 + TOL && r >= -a / 2 - TOL, "at most half a divisor");
    r = d ? (float)zpl_mod64(x, y) : zpl_mod(x, y); q = (x - r) / y; CHECK(near_(q, (float)(int)(q + (q < 0 ? -0.5f : 0.5f))), "whole number of divisors off"); CHECK(r < a + TOL && r > -a - TOL, "less than a divisor"); CHECK(x < 0 ? r <= 0 : r >= 0, "sign of the dividend"); REACHED();
}
//@ x=h_angle q="T=100,J=8" t="T=600,J=8" opts="-real 2" what="the difference of two angles lies within half a turn and leads from one to the other; degrees and radians convert both ways"
void h_angle(void) {
    float a = sf(20), b = sf(20), d = zpl_angle_diff(a, b), q = (b - a - d) / ZPL_TAU; CHECK(near_(q, (float)(int)(q + (q < 0 ? -0.5f : 0.5f))), "leads from one to the other"); CHECK(d <= ZPL_PI + TOL && d >= -ZPL_PI - TOL, "within half a turn");
    float g = sf(720); CHECK(near_(zpl_to_degrees(zpl_to_radians(g)), g), "degrees"); CHECK(near_(zpl_to_radians(180), ZPL_PI) && near_(zpl_to_radians(g) * 180, g * ZPL_PI), "radians"); REACHED();
}
//@ x=h_fun q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="square roots, lengths and the elementary functions are those of the C library, the base-2 forms scale them"
void h_fun(void) {
    float x = sf(8), y = sf(8), z = sf(8); ASSUME(z >= 0.5f); float h = zpl_hypot(x, y); CHECK(h >= 0 && near_(h * h, x * x + y * y), "hypotenuse"); float s = zpl_sqrt(z); CHECK(s >= 0 && near_(s * s, z), "square root"); CHECK(near_(zpl_rsqrt(z) * s, 1), "reciprocal square root");
    float u = x / 8; CHECK(zpl_sin(x) == sinf(x) && zpl_cos(x) == cosf(x) && zpl_tan(x) == tanf(x), "trigonometric functions"); CHECK(zpl_arcsin(u) == asinf(u) && zpl_arccos(u) == acosf(u) && zpl_arctan(x) == atanf(x) && zpl_arctan2(x, y) == atan2f(x, y), "their inverses");
    CHECK(zpl_exp(x) == expf(x) && zpl_log(z) == logf(z) && zpl_pow(z, x) == powf(z, x), "exponentials"); CHECK(zpl_exp2(x) == expf(ZPL_LOG_TWO * x), "exponential of base 2"); CHECK(near_(zpl_log2(z) * ZPL_LOG_TWO, logf(z)), "logarithm of base 2"); REACHED();
}
//@ x=h_fexp q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="the fast exponentials stay within their Taylor remainder of the exponential series on their interval"
void h_fexp(void) {
    float x = nd_f32(); ASSUME(x >= -1 && x <= 1); double t = 1, s = 1, e = zpl_fast_exp(x); for (int i = 1; i <= 10; i++) { t = t * x / i; s += t; } CHECK(e - s <= 0.002 && s - e <= 0.002, "fast exponential");
    double l = 0.69314718055994531 * x; t = s = 1; e = zpl_fast_exp2(x); for (int i = 1; i <= 10; i++) { t = t * l / i; s += t; } CHECK(e - s <= 0.0005 && s - e <= 0.0005, "fast exponential of base 2"); REACHED();
}
//@ x=h_qrsqrt q="T=200,J=2;T=60,W=6" t="T=800,J=4" tier=thorough what="the fast reciprocal square root is within 1/100000 of the exact one"
#ifndef W
#define W 10
#endif
void h_qrsqrt(void) {
    unsigned m = nd_u32(); ASSUME(m < 1u << W); union { unsigned u; float f; } c; c.u = 0x3f800000u + (m << (24 - W)); float r = zpl_quake_rsqrt(c.f); double p = (double)r * r * c.f; CHECK(p > 0.99997 && p < 1.00003, "reciprocal square root"); REACHED();
}
