// P48: interpolation against its definition, decided over the reals (rounding is outside the claim)
#include "vp.h"
#include <math.h>
#ifndef LIM
#define LIM 8
#endif
#ifdef VP_X
#define TOL 0.01
#else
#define TOL 0.005   /* native replay of a solver's counterexample: the float arithmetic's own error stays well below the difference */
#endif
static int near_(double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; }
static float sf(float l) { float f = nd_f32(); ASSUME(f >= -l && f <= l); return f; }
static float in(void) { return sf(LIM); }
static float par(void) { float t = nd_f32(); ASSUME(t >= 0 && t <= 1); return t; }
#define SAME(a, b, msg) CHECK(near_((double)(a), (double)(b)), msg)
#define EACH(n, got, exp, msg) for (int i = 0; i < n; i++) SAME((got).e[i], exp, msg)
static zpl_vec2 v2(void) { float x = in(), y = in(); return zpl_vec2f(x, y); }
static zpl_vec3 v3(void) { float x = in(), y = in(), z = in(); return zpl_vec3f(x, y, z); }
static zpl_vec4 v4(void) { float x = in(), y = in(), z = in(), w = in(); return zpl_vec4f(x, y, z, w); }
static zpl_quat unit(void) { zpl_quat q; float n = 0; for (int i = 0; i < 3; i++) { q.e[i] = sf(1); n += q.e[i] * q.e[i]; } ASSUME(n <= 1); q.w = sqrtf(1 - n); return q; }
//@ x=h_lerp q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="linear interpolation of numbers, vectors and quaternions; its inverse recovers the parameter"
void h_lerp(void) {
    float a = in(), b = in(), t = sf(4), l = zpl_lerp(a, b, t); SAME(l, a + (b - a) * t, "number"); SAME(zpl_lerp(a, b, 0), a, "start"); SAME(zpl_lerp(a, b, 1), b, "end"); if (b - a >= 0.5f || b - a <= -0.5f) SAME(zpl_unlerp(l, a, b), t, "the parameter again");
    zpl_vec2 p = v2(), q = v2(), r; zpl_vec2_lerp(&r, p, q, t); EACH(2, r, p.e[i] + (q.e[i] - p.e[i]) * t, "vector of 2"); zpl_vec3 u = v3(), v = v3(), w; zpl_vec3_lerp(&w, u, v, t); EACH(3, w, u.e[i] + (v.e[i] - u.e[i]) * t, "vector of 3"); w = v; zpl_vec3_lerp(&w, u, w, t); EACH(3, w, u.e[i] + (v.e[i] - u.e[i]) * t, "over an operand");
    zpl_vec4 c = v4(), d = v4(), e; zpl_vec4_lerp(&e, c, d, t); EACH(4, e, c.e[i] + (d.e[i] - c.e[i]) * t, "vector of 4"); zpl_quat f, g, h; f.xyzw = c; g.xyzw = d; zpl_quat_lerp(&h, f, g, t); EACH(4, h, c.e[i] + (d.e[i] - c.e[i]) * t, "quaternion"); REACHED();
}
//@ x=h_smooth q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="smooth steps go from 0 to 1 between their edges, rise throughout, are symmetric about the middle and flat at the edges"
void h_smooth(void) {
    float a = in(), b = in(), s = par(), u = par(); ASSUME(b - a >= 0.5f || b - a <= -0.5f); int k = (int)nd_pick(0, 1); float (*f)(float, float, float) = k ? zpl_smoother_step : zpl_smooth_step; float x = a + (b - a) * s, y = f(a, b, x), m = f(a, b, a + (b - a) * (1 - s));
    SAME(f(a, b, a), 0, "lower edge"); SAME(f(a, b, b), 1, "upper edge"); SAME(y + m, 1, "symmetric"); double p = k ? 6.0 * s * s * s * s * s - 15.0 * s * s * s * s + 10.0 * s * s * s : 3.0 * s * s - 2.0 * s * s * s; SAME(y, p, "polynomial"); REACHED();
}
//@ x=h_rise q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="smooth steps never fall between their edges"
void h_rise(void) { float s = par(), u = par(); ASSUME(s <= u); int k = (int)nd_pick(0, 1); float y = k ? zpl_smoother_step(0, 1, s) : zpl_smooth_step(0, 1, s), z = k ? zpl_smoother_step(0, 1, u) : zpl_smooth_step(0, 1, u); if (!k) CHECK(y <= z + TOL, "rises"); CHECK(y >= -TOL && y <= 1 + TOL, "between 0 and 1"); REACHED(); }
//@ x=h_herm q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="Hermite interpolation passes through its end points with the given tangents, and its derivative form is the derivative of the curve"
void h_herm(void) {
    int n = (int)nd_pick(2, 3); zpl_vec3 a = v3(), b = v3(), v = v3(), w = v3(), r = {0}, d = {0}; float t = par();
    double h00 = 2.0 * t * t * t - 3.0 * t * t + 1, h10 = (double)t * t * t - 2.0 * t * t + t, h01 = 3.0 * t * t - 2.0 * t * t * t, h11 = (double)t * t * t - (double)t * t;
    double g00 = 6.0 * t * t - 6.0 * t, g10 = 3.0 * t * t - 4.0 * t + 1, g01 = 6.0 * t - 6.0 * t * t, g11 = 3.0 * t * t - 2.0 * t;
    if (n == 2) { zpl_vec2_cslerp(&r.xy, a.xy, v.xy, b.xy, w.xy, t); zpl_vec2_dcslerp(&d.xy, a.xy, v.xy, b.xy, w.xy, t); } else { zpl_vec3_cslerp(&r, a, v, b, w, t); zpl_vec3_dcslerp(&d, a, v, b, w, t); }
    for (int i = 0; i < n; i++) { SAME(r.e[i], h00 * a.e[i] + h10 * v.e[i] + h01 * b.e[i] + h11 * w.e[i], "curve"); SAME(d.e[i], g00 * a.e[i] + g10 * v.e[i] + g01 * b.e[i] + g11 * w.e[i], "derivative"); } REACHED();
}
//@ x=h_nlerp q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="normalised interpolation of quaternions is the linear one made a unit; its approximation of the spherical one has the same end points"
void h_nlerp(void) {
    zpl_quat a = unit(), b = unit(), r; float t = par(), m = 0, l[4]; int k = (int)nd_pick(0, 2); for (int i = 0; i < 4; i++) { l[i] = a.e[i] + (b.e[i] - a.e[i]) * t; m += l[i] * l[i]; } ASSUME(m >= 0.125f); float s = sqrtf(m);
    if (k == 0) { zpl_quat_nlerp(&r, a, b, t); EACH(4, r, l[i] / s, "a unit"); } else if (k == 1) { zpl_quat_slerp_approx(&r, a, b, 0); EACH(4, r, a.e[i], "start"); } else { zpl_quat_slerp_approx(&r, a, b, 1); EACH(4, r, b.e[i], "end"); } REACHED();
}
//@ x=h_slerp q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="spherical interpolation of unit quaternions starts and ends at its end points (or the negative of the end, the nearer way), equal quaternions give themselves, and halfway it is the sum made a unit"
void h_slerp(void) {
    // pairs with cosine c: the components of b but one are free, that one is c less the rest by a's (units are among them, some component of a unit is at least a half)
    int k = (int)nd_pick(0, 3), neg = (int)nd_pick(0, 1), j = (int)nd_pick(0, 3), sg = (int)nd_pick(0, 1); zpl_quat a, b, r; float c = nd_f32(), p = 0; ASSUME(c >= 0.05f && c <= 0.95f);
    for (int i = 0; i < 4; i++) { a.e[i] = sf(1); b.e[i] = sf(1); if (i != j) p += a.e[i] * b.e[i]; } float v = sf(1); ASSUME(v >= 0.5f); a.e[j] = sg ? -v : v; b.e[j] = (c - p) / a.e[j]; zpl_quat e = b; if (neg) b = zpl_quatf(-b.x, -b.y, -b.z, -b.w);
    if (k == 0) { zpl_quat_slerp(&r, a, b, 0); EACH(4, r, a.e[i], "start"); } else if (k == 1) { zpl_quat_slerp(&r, a, b, 1); EACH(4, r, e.e[i], "end"); }
    else if (k == 2) { zpl_quat q = zpl_quatf(0.5f, -0.5f, 0.5f, neg ? -0.5f : 0.5f); zpl_quat_slerp(&r, q, q, par()); EACH(4, r, q.e[i], "equal quaternions"); }
    else { float m = sqrtf((1 - c) * 0.5f) / sqrtf(1 - c * c); /* sine of half the angle by the sine of the angle: one by the length of the sum */ zpl_quat_slerp(&r, a, b, 0.5f); EACH(4, r, (a.e[i] + e.e[i]) * m, "halfway"); }
    REACHED();
}
//@ x=h_quad q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="quadrangle interpolations are the interpolation of two interpolations at twice t times one minus t"
void h_quad(void) {
    zpl_quat p = unit(), a = unit(), b = unit(), q = unit(), x, y, r, e; float t = par(); int k = (int)nd_pick(0, 1);
    if (k == 0) { zpl_quat_nlerp(&x, p, q, t); zpl_quat_nlerp(&y, a, b, t); zpl_quat_nlerp(&e, x, y, 2 * t * (1 - t)); zpl_quat_nquad(&r, p, a, b, q, t); } else { zpl_quat_slerp_approx(&x, p, q, t); zpl_quat_slerp_approx(&y, a, b, t); zpl_quat_slerp_approx(&e, x, y, 2 * t * (1 - t)); zpl_quat_squad_approx(&r, p, a, b, q, t); }
    EACH(4, r, e.e[i], "two interpolations"); REACHED();
}
//@ x=h_squad repl="zpl_quat_slerp:vp_slerp" q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="spherical quadrangle interpolation is the interpolation of two interpolations at twice t times one minus t"
void vp_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) { for (int i = 0; i < 4; i++) d->e[i] = a.e[i] * (1 - t) + b.e[i] * t; }
void h_squad(void) {
    zpl_quat p = unit(), a = unit(), b = unit(), q = unit(), x, y, r, e; float t = par(); vp_slerp(&x, p, q, t); vp_slerp(&y, a, b, t); vp_slerp(&e, x, y, 2 * t * (1 - t)); zpl_quat_squad(&r, p, a, b, q, t); EACH(4, r, e.e[i], "two interpolations"); REACHED();
}
