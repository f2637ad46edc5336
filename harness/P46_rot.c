// P46: quaternions, rotations, cameras, projections and frustums against their geometric definition, decided over the reals (rounding is outside the claim)
#include "vp.h"
#include <math.h>
#ifndef LIM
#define LIM 4
#endif
#ifdef VP_X
#define TOL 0.01
#else
#define TOL 0.005   /* native replay of a solver's counterexample: the float arithmetic's own error stays well below the difference */
#endif
static int near_(double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; }
static float sf(float l) { float f = nd_f32(); ASSUME(f >= -l && f <= l); return f; }
static float in(void) { return sf(LIM); }
#define SAME(a, b, msg) CHECK(near_((double)(a), (double)(b)), msg)
#define EACH(n, got, exp, msg) for (int i = 0; i < n; i++) SAME((got).e[i], exp, msg)
static zpl_vec3 v3(void) { float x = in(), y = in(), z = in(); return zpl_vec3f(x, y, z); }
static zpl_quat q4(void) { float x = in(), y = in(), z = in(), w = in(); return zpl_quatf(x, y, z, w); }
// a unit quaternion: one component follows from the other three
static zpl_quat unit(int k) { zpl_quat q; float n = 0; for (int i = 0; i < 4; i++) if (i != k) { q.e[i] = sf(1); n += q.e[i] * q.e[i]; } ASSUME(n <= 1); q.e[k] = sqrtf(1 - n); if (nd_pick(0, 1)) q.e[k] = -q.e[k]; return q; }
// an axis and the unit vector along it
static zpl_vec3 axis(zpl_vec3 *u) { zpl_vec3 a = v3(); float n = a.x * a.x + a.y * a.y + a.z * a.z; ASSUME(n >= 0.25f); float l = sqrtf(n); *u = zpl_vec3f(a.x / l, a.y / l, a.z / l); return a; }
static zpl_vec3 app(zpl_mat4 *m, zpl_vec3 v, float w, float *ow) { zpl_vec4 i = {{v.x, v.y, v.z, w}}, o; zpl_mat4_mul_vec4(&o, m, i); if (ow) *ow = o.w; return zpl_vec3f(o.x, o.y, o.z); }
// Hamilton product, written out
static zpl_quat ham(zpl_quat a, zpl_quat b) { return zpl_quatf(a.w * b.x + b.w * a.x + (a.y * b.z - a.z * b.y), a.w * b.y + b.w * a.y + (a.z * b.x - a.x * b.z), a.w * b.z + b.w * a.z + (a.x * b.y - a.y * b.x), a.w * b.w - (a.x * b.x + a.y * b.y + a.z * b.z)); }
//@ x=h_quat q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="quaternion sums, multiples, dot products, lengths and conjugates are componentwise; products are Hamilton's, also in place"
void h_quat(void) {
    zpl_quat a = q4(), b = q4(), r, o; float s = in(), c[4] = {a.x, a.y, a.z, a.w}; ASSUME(s >= 0.25f || s <= -0.25f);
    zpl_quat_add(&r, a, b); EACH(4, r, a.e[i] + b.e[i], "sum"); zpl_quat_sub(&r, a, b); EACH(4, r, a.e[i] - b.e[i], "difference"); zpl_quat_mulf(&r, a, s); EACH(4, r, a.e[i] * s, "multiple"); zpl_quat_divf(&r, a, s); EACH(4, r, a.e[i] / s, "quotient");
    o = a; zpl_quat_addeq(&o, b); EACH(4, o, a.e[i] + b.e[i], "sum in place"); o = a; zpl_quat_subeq(&o, b); EACH(4, o, a.e[i] - b.e[i], "difference in place"); o = a; zpl_quat_muleqf(&o, s); EACH(4, o, a.e[i] * s, "multiple in place"); o = a; zpl_quat_diveqf(&o, s); EACH(4, o, a.e[i] / s, "quotient in place");
    SAME(zpl_quat_dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "dot"); float m = zpl_quat_mag(a); CHECK(m >= 0, "length"); SAME(m * m, a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w, "squared length");
    zpl_quat_conj(&r, a); EACH(4, r, i < 3 ? -a.e[i] : a.e[i], "conjugate"); o = zpl_quatfv(c); EACH(4, o, a.e[i], "from an array"); o = zpl_quat_identity(); EACH(4, o, i == 3, "identity");
    zpl_quat h = ham(a, b); zpl_quat_mul(&r, a, b); EACH(4, r, h.e[i], "product"); o = a; zpl_quat_muleq(&o, b); EACH(4, o, h.e[i], "product in place"); o = b; zpl_quat_mul(&o, a, o); EACH(4, o, h.e[i], "product over its second operand"); REACHED();
}
//@ x=h_qinv q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a quaternion times its inverse is the identity, a quotient times the divisor the dividend, a normalised quaternion a unit in the same direction"
void h_qinv(void) {
    zpl_quat a = q4(), b = q4(), i, r, p; ASSUME(b.x * b.x + b.y * b.y + b.z * b.z + b.w * b.w >= 0.25f); int k = (int)nd_pick(0, 2);
    if (k == 0) { zpl_quat_inverse(&i, b); r = ham(b, i); EACH(4, r, i == 3, "times its inverse"); i = b; zpl_quat_inverse(&i, i); r = ham(i, b); EACH(4, r, i == 3, "inverse in place"); }
    else if (k == 1) { zpl_quat_inverse(&i, b); r = ham(a, i); zpl_quat_div(&p, a, b); EACH(4, p, r.e[i], "quotient"); p = a; zpl_quat_diveq(&p, b); EACH(4, p, r.e[i], "quotient in place"); }
    else { float m = zpl_quat_mag(b); zpl_quat_norm(&r, b); EACH(4, r, b.e[i] / m, "normalised"); r = b; zpl_quat_norm(&r, r); EACH(4, r, b.e[i] / m, "normalised in place"); }
    REACHED();
}
//@ x=h_qrot q="T=100,J=4" t="T=600,J=4" opts="-real 2" what="a unit quaternion rotates a vector as q v q*, and as the matrix made from it does"
void h_qrot(void) {
    zpl_quat q = unit(3), p, r; zpl_vec3 v = v3(), d; p = zpl_quatf(v.x, v.y, v.z, 0); zpl_quat c = zpl_quatf(-q.x, -q.y, -q.z, q.w); r = ham(ham(q, p), c);
    zpl_quat_rotate_vec3(&d, q, v); EACH(3, d, r.e[i], "rotated vector"); REACHED();
}
//@ x=h_qmat q="T=100,J=4" t="T=600,J=4" opts="-real 2" what="the matrix of a unit quaternion"
void h_qmat(void) {
    zpl_quat q = unit(3); zpl_mat4 m; zpl_vec3 v = v3(), d, e; float w; zpl_mat4_from_quat(&m, q); zpl_vec3 c, cc; zpl_vec3_cross(&c, q.xyz, v); zpl_vec3_cross(&cc, q.xyz, c);
    d = app(&m, v, 1, &w); for (int i = 0; i < 3; i++) e.e[i] = v.e[i] + 2 * q.w * c.e[i] + 2 * cc.e[i]; EACH(3, d, e.e[i], "matrix of a quaternion"); SAME(w, 1, "last row"); REACHED();
}
//@ x=h_matq q="T=100,J=4" t="T=600,J=4" opts="-real 2" what="the quaternion of the matrix of a unit quaternion is that quaternion or its negative"
void h_matq(void) {
    int k = (int)nd_pick(0, 3); zpl_quat q = unit(k), r; for (int i = 0; i < 4; i++) if (i != k) ASSUME(q.e[i] * q.e[i] < q.e[k] * q.e[k] - TOL); zpl_mat4 m; zpl_mat4_identity(&m); zpl_float4 *e = zpl_float44_m(&m); float x = q.x, y = q.y, z = q.z, w = q.w;
    e[0][0] = w * w + x * x - y * y - z * z; e[0][1] = 2 * (x * y + w * z); e[0][2] = 2 * (x * z - w * y); e[1][0] = 2 * (x * y - w * z); e[1][1] = w * w - x * x + y * y - z * z; e[1][2] = 2 * (y * z + w * x); e[2][0] = 2 * (x * z + w * y); e[2][1] = 2 * (y * z - w * x); e[2][2] = w * w - x * x - y * y + z * z;
    zpl_quat_from_mat4(&r, &m); if ((double)r.e[k] * q.e[k] >= 0) { EACH(4, r, q.e[i], "back to the quaternion"); } else { EACH(4, r, -q.e[i], "back to its negative"); } REACHED();
}
//@ x=h_axis q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="the quaternion and the matrix of a turn about an axis follow the half-angle form and Rodrigues' formula; axis and angle of a quaternion are read back"
void h_axis(void) {
    zpl_vec3 k, kl = axis(&k), v = v3(), d, c; float an = sf(6), h = an * 0.5f, sh = sinf(h), ch = cosf(h), s = sinf(an), co = cosf(an); int w = (int)nd_pick(0, 2);
#ifdef VP_X
    ASSUME(sh <= 1 && sh >= -1 && ch <= 1 && ch >= -1 && s <= 1 && s >= -1 && co <= 1 && co >= -1);
#endif
    if (w == 0) { zpl_quat q = zpl_quat_axis_angle(kl, an); EACH(3, q, k.e[i] * sh, "turn about an axis"); SAME(q.w, ch, "half angle"); }
    else { zpl_mat4 m; float kv = k.x * v.x + k.y * v.y + k.z * v.z, ow; zpl_vec3_cross(&c, k, v); if (w == 1) zpl_mat4_axis_angle(&m, kl, an); else zpl_mat4_to_rotate(&m, kl, an); d = app(&m, v, 1, &ow); EACH(3, d, v.e[i] * co + c.e[i] * s + k.e[i] * kv * (1 - co), "Rodrigues' formula"); SAME(ow, 1, "last row"); }
    REACHED();
}
//@ x=h_aback q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="axis and angle of a quaternion are those it was made from"
void h_aback(void) {
    zpl_vec3 k, kl = axis(&k), a; float an = nd_f32(), l = nd_f32(), h, ch = nd_f32(), sh; ASSUME(an >= 0.25f && an <= 6 && l >= 0.25f && l <= 4); h = an * 0.5f; l = sqrtf(l);
#ifdef VP_X
    ASSUME(ch <= 0.99f && ch >= -0.99f); sh = sqrtf(1 - ch * ch); ASSUME(cosf(h) == ch && sinf(h) == sh && acosf(ch) == h);   /* half of an angle between 0.25 and 6 */
#else
    ch = cosf(h); sh = sinf(h);
#endif
    zpl_quat q = zpl_quatf(k.x * sh * l, k.y * sh * l, k.z * sh * l, ch * l); SAME(zpl_quat_angle(q), an, "angle"); zpl_quat_axis(&a, q); EACH(3, a, k.e[i], "axis"); REACHED();
}
//@ x=h_euler q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a quaternion made from one Euler angle turns about that axis and gives the angle back; from all three it is yaw times pitch times roll"
void h_euler(void) {
    int k = (int)nd_pick(0, 3); float an = sf(1.5f), h = an * 0.5f, sh = sinf(h), ch = cosf(h);
#ifdef VP_X
    ASSUME(sh <= 1 && sh >= -1 && ch <= 1 && ch >= -1 && sh * sh + ch * ch == 1); float s = 2 * sh * ch, c = ch * ch - sh * sh; ASSUME(asinf(s) == an && atan2f(s, c) == an);
#endif
    if (k < 3) { zpl_quat q = zpl_quat_euler_angles(k == 0 ? an : 0, k == 1 ? an : 0, k == 2 ? an : 0); EACH(3, q, i == k ? sh : 0, "about the axis"); SAME(q.w, ch, "half angle"); SAME(k == 0 ? zpl_quat_pitch(q) : k == 1 ? zpl_quat_yaw(q) : zpl_quat_roll(q), an, "angle back"); }
    else { float b = sf(1.5f), c = sf(1.5f); zpl_quat p = zpl_quatf(sh, 0, 0, ch), y = zpl_quatf(0, sinf(b * 0.5f), 0, cosf(b * 0.5f)), r = zpl_quatf(0, 0, sinf(c * 0.5f), cosf(c * 0.5f)), e = ham(ham(y, p), r), q;
#ifdef VP_X
        ASSUME(y.y <= 1 && y.y >= -1 && y.w <= 1 && y.w >= -1 && r.z <= 1 && r.z >= -1 && r.w <= 1 && r.w >= -1);
#endif
        q = zpl_quat_euler_angles(an, b, c); EACH(4, q, e.e[i], "three angles"); }
    REACHED();
}
//@ x=h_move q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="translation and scaling matrices move and scale points; applied to a matrix they act before it"
void h_move(void) {
    zpl_mat4 m, n; zpl_vec3 t = v3(), v = v3(), d, e; float s = in(), w; int k = (int)nd_pick(0, 2);
    if (k == 0) { zpl_mat4_to_translate(&m, t); d = app(&m, v, 1, &w); EACH(3, d, v.e[i] + t.e[i], "translated point"); SAME(w, 1, "last row"); d = app(&m, v, 0, &w); EACH(3, d, v.e[i], "direction"); SAME(w, 0, "last row of a direction"); zpl_mat4_to_scale(&m, t); d = app(&m, v, 1, &w); EACH(3, d, v.e[i] * t.e[i], "scaled point"); SAME(w, 1, "last row"); zpl_mat4_to_scalef(&m, s); d = app(&m, v, 1, &w); EACH(3, d, v.e[i] * s, "evenly scaled point"); SAME(w, 1, "last row"); }
    else { float f[4][4], ew; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.e[i * 4 + j] = f[i][j] = in(); n = m;
        if (k == 1) { zpl_mat4_translate(&n, t); d = app(&n, v, 1, &w); for (int i = 0; i < 3; i++) e.e[i] = v.e[i] + t.e[i]; e = app(&m, e, 1, &ew); EACH(3, d, e.e[i], "translated before"); SAME(w, ew, "translated before"); }
        else { zpl_mat4_scale(&n, t); d = app(&n, v, 1, &w); for (int i = 0; i < 3; i++) e.e[i] = v.e[i] * t.e[i]; e = app(&m, e, 1, &ew); EACH(3, d, e.e[i], "scaled before"); SAME(w, ew, "scaled before"); n = m; zpl_mat4_scalef(&n, s); d = app(&n, v, 1, &w); for (int i = 0; i < 3; i++) e.e[i] = v.e[i] * s; e = app(&m, e, 1, &ew); EACH(3, d, e.e[i], "evenly scaled before"); SAME(w, ew, "evenly scaled before"); } }
    REACHED();
}
//@ x=h_ortho q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="orthographic projections map their box to the unit box, with depth from -1 to 1 or, in the DirectX forms, 0 to 1"
void h_ortho(void) {
    float l = in(), r = in(), b = in(), t = in(), n = in(), f = in(), u = sf(1), v = sf(1), q = sf(1), w; ASSUME(r - l >= 0.5f && t - b >= 0.5f && f - n >= 0.5f); zpl_mat4 m; int dx = nd_bool(), flat = nd_bool();
    float x = (l + r) / 2 + u * (r - l) / 2, y = (b + t) / 2 + v * (t - b) / 2, z = (n + f) / 2 + q * (f - n) / 2;
    if (flat) { if (dx) zpl_mat4_ortho2d_dx(&m, l, r, b, t); else zpl_mat4_ortho2d(&m, l, r, b, t); } else if (dx) zpl_mat4_ortho3d_dx(&m, l, r, b, t, n, f); else zpl_mat4_ortho3d(&m, l, r, b, t, n, f);
    zpl_vec3 p = app(&m, zpl_vec3f(x, y, -z), 1, &w); SAME(p.x, u, "horizontally"); SAME(p.y, v, "vertically"); SAME(p.z, flat ? z : dx ? (q + 1) / 2 : q, "depth"); SAME(w, 1, "last row"); REACHED();
}
//@ x=h_persp q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="perspective projections divide by the distance: the field of view fills the screen, the near and far planes map to the ends of the depth range of either convention"
void h_persp(void) {
    float fov = nd_f32(), as = nd_f32(), n = nd_f32(), f = nd_f32(); ASSUME(fov >= 0.25f && fov <= 2.5f && as >= 0.25f && as <= 4 && n >= 0.125f && n <= 4 && f <= 16 && f - n >= 0.5f); int k = (int)nd_pick(0, 3); zpl_mat4 m; float u = sf(1), v = sf(1), d = nd_f32(), w; ASSUME(d >= 0.125f && d <= 16); float th = tanf(0.5f * fov);
#ifdef VP_X
    ASSUME(th >= 0.12f && th <= 3.1f);
#endif
    if (k == 0) zpl_mat4_perspective(&m, fov, as, n, f); else if (k == 1) zpl_mat4_perspective_dx(&m, fov, as, n, f); else if (k == 2) zpl_mat4_infinite_perspective(&m, fov, as, n); else zpl_mat4_infinite_perspective_dx(&m, fov, as, n);
    zpl_vec3 p = app(&m, zpl_vec3f(u * d * th * as, v * d * th, -d), 1, &w); SAME(w, d, "the distance"); SAME(p.x, u * d, "horizontally"); SAME(p.y, v * d, "vertically");
    zpl_vec3 a = app(&m, zpl_vec3f(0, 0, -n), 1, &w); SAME(a.z, k & 1 ? 0 : -n, "near plane");
    if (k < 2) { a = app(&m, zpl_vec3f(0, 0, -f), 1, &w); SAME(a.z, f, "far plane"); } else SAME(p.z, k & 1 ? d - n : d - 2 * n, "no far plane"); REACHED();
}
//@ x=h_look q="T=100,J=4" t="T=600,J=4" opts="-real 2" what="a camera matrix moves the eye to the origin and what it looks at straight ahead, keeps lengths and angles, and keeps up upright"
void h_look(void) {
    int lh = (int)nd_pick(0, 1), k = (int)nd_pick(0, 2); zpl_vec3 eye = v3(), up = v3(), f, dir = axis(&f), at, s, p; float w; zpl_vec3_cross(&s, dir, up); ASSUME(s.x * s.x + s.y * s.y + s.z * s.z >= 1); zpl_vec3_cross(&s, f, up); float n = s.x * s.x + s.y * s.y + s.z * s.z; at = zpl_vec3f(eye.x + dir.x, eye.y + dir.y, eye.z + dir.z);
    zpl_mat4 m; if (lh) zpl_mat4_look_at_lh(&m, eye, at, up); else zpl_mat4_look_at(&m, eye, at, up);
    if (k == 0) { p = app(&m, eye, 1, &w); EACH(3, p, 0, "the eye"); SAME(w, 1, "last row"); p = app(&m, s, 0, &w); SAME(p.x, lh ? -sqrtf(n) : sqrtf(n), "sideways"); SAME(p.y, 0, "sideways"); SAME(p.z, 0, "sideways"); SAME(w, 0, "direction"); }
    else if (k == 1) { p = app(&m, f, 0, &w); SAME(p.x, 0, "ahead"); SAME(p.y, 0, "ahead"); SAME(p.z, lh ? 1 : -1, "ahead"); }
    else { p = app(&m, up, 0, &w); SAME(p.x, 0, "up stays upright"); SAME(p.y, sqrtf(n), "up stays up"); }
    REACHED();
}
//@ x=h_frust q="T=100,J=4" t="T=600,J=4" opts="-real 2" what="a point is inside the frustum of a camera and a projection iff it projects into the clip box; a plane's distance is that of its equation"
void h_frust(void) {
    zpl_mat4 cam, pr; zpl_mat4_identity(&cam); zpl_mat4_identity(&pr); zpl_frustum fr; zpl_vec3 t = v3(), p = v3(), e; float w; for (int i = 0; i < 3; i++) cam.e[12 + i] = t.e[i]; { float a = in(), b = in(); ASSUME(a >= 0.5f && b >= 0.5f); cam.e[0] = 0; cam.e[1] = a; cam.e[4] = b; cam.e[5] = 0; }
    float fx = nd_f32(), fy = nd_f32(), a = in(), b = in(); ASSUME(fx >= 0.25f && fx <= 4 && fy >= 0.25f && fy <= 4); pr.e[0] = fx; pr.e[5] = fy; pr.e[10] = a; pr.e[11] = -1; pr.e[14] = b; pr.e[15] = 0; ASSUME(a >= 1.5f || a <= -1.5f || 1);
    ASSUME((a - 1) * (a - 1) >= 0.01f && (a + 1) * (a + 1) >= 0.01f); zpl_frustum_create(&fr, &cam, &pr); e = app(&cam, p, 1, &w); e = app(&pr, e, 1, &w);
    int k = (int)nd_pick(0, 5); zpl_plane *pl[6] = {&fr.x1, &fr.x2, &fr.y2, &fr.y1, &fr.z1, &fr.z2}; float g = (k & 1) ? w - e.e[k / 2] : w + e.e[k / 2], d = zpl_plane_distance(pl[k], p); SAME(pl[k]->a * pl[k]->a + pl[k]->b * pl[k]->b + pl[k]->c * pl[k]->c, 1, "unit normal"); SAME(d, pl[k]->a * p.x + pl[k]->b * p.y + pl[k]->c * p.z + pl[k]->d, "distance"); if (g > TOL) CHECK(d > 0, "inside"); if (g < -TOL) CHECK(d < 0, "outside"); REACHED();
}
//@ x=h_cull q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a sphere is inside iff it lies more than minus its radius from every plane, a point likewise, for any six planes and centres of a list"
void h_cull(void) {
    static const float P[3][3] = {{1, 2, -3}, {-0.5f, 0.25f, 2}, {3, -1, 0.125f}}; int k = (int)nd_pick(0, 2), pt = (int)nd_pick(0, 1);
    zpl_frustum fr; zpl_plane *pl[6] = {&fr.x1, &fr.x2, &fr.y1, &fr.y2, &fr.z1, &fr.z2}; for (int i = 0; i < 6; i++) { pl[i]->a = sf(1); pl[i]->b = sf(1); pl[i]->c = sf(1); pl[i]->d = in(); } zpl_vec3 p = zpl_vec3f(P[k][0], P[k][1], P[k][2]); float r = nd_f32(); ASSUME(r >= 0 && r <= 4); if (pt) r = 0;
    zpl_b8 g = pt ? zpl_frustum_point_inside(&fr, p) : zpl_frustum_sphere_inside(&fr, p, r); int far_ = 0, out = 0; for (int i = 0; i < 6; i++) { float d = pl[i]->a * p.x + pl[i]->b * p.y + pl[i]->c * p.z + pl[i]->d; far_ |= d < -r - TOL; out |= d <= -r + TOL; }
    if (g) CHECK(!far_, "outside"); else CHECK(out, "inside"); REACHED();
}
//@ x=h_box q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a box is inside a plane of the frustum iff one of its eight corners is, for each of the six planes"
void h_box(void) {
    static const float N[4][3] = {{1, -2, 0.5f}, {-1, 1, 3}, {2, 0.25f, -1}, {-0.5f, -1, -2}}; int k = (int)nd_pick(0, 5), n = (int)nd_pick(0, 3); zpl_frustum fr; zpl_plane *pl[6] = {&fr.x1, &fr.x2, &fr.y1, &fr.y2, &fr.z1, &fr.z2}; for (int i = 0; i < 6; i++) { pl[i]->a = pl[i]->b = pl[i]->c = 0; pl[i]->d = 1; }
    pl[k]->a = N[n][0]; pl[k]->b = N[n][1]; pl[k]->c = N[n][2]; pl[k]->d = in(); zpl_vec3 lo = v3(), hi = v3(); ASSUME(lo.x <= hi.x && lo.y <= hi.y && lo.z <= hi.z); zpl_aabb3 b; b.min = lo; b.max = hi; zpl_b8 g = zpl_frustum_box_inside(&fr, b);
    float best = pl[k]->d; for (int i = 0; i < 3; i++) best += N[n][i] > 0 ? N[n][i] * hi.e[i] : N[n][i] * lo.e[i]; if (g) CHECK(best > -TOL, "outside"); else CHECK(best < TOL, "inside"); REACHED();
}
//@ x=h_mrot q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="rotating a matrix is multiplying it by the rotation about that axis and angle"
void h_mrot(void) {
    zpl_mat4 m, n, r, e; zpl_vec3 k, kl = axis(&k); float an = sf(6), f[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.e[i * 4 + j] = f[i][j] = in(); n = m; zpl_mat4_to_rotate(&r, kl, an); zpl_mat4_mul(&e, &m, &r); zpl_mat4_rotate(&n, kl, an); for (int i = 0; i < 16; i++) SAME(n.e[i], e.e[i], "rotated before"); REACHED();
}
