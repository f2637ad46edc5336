// P36: vector and matrix arithmetic against its algebraic definition, decided over the reals (rounding is outside the claim)
#include "vp.h"
#ifndef LIM
#define LIM 8
#endif
#ifdef VP_X
#define TOL 0.01
#else
#define TOL 0.005   /* native replay of a solver's counterexample: the float arithmetic's own error stays well below the difference */
#endif
static float in(void) { float f = nd_f32(); ASSUME(f >= -LIM && f <= LIM); return f; }
static int near_(double a, double b) { double d = a - b; return d <= TOL && d >= -TOL; }
#define SAME(a, b, msg) CHECK(near_((double)(a), (double)(b)), msg)
static zpl_vec2 v2(void) { float x = in(), y = in(); return zpl_vec2f(x, y); }
static zpl_vec3 v3(void) { float x = in(), y = in(), z = in(); return zpl_vec3f(x, y, z); }
static zpl_vec4 v4(void) { float x = in(), y = in(), z = in(), w = in(); return zpl_vec4f(x, y, z, w); }
#define EACH(n, got, exp, msg) for (int i = 0; i < n; i++) SAME((got).e[i], exp, msg)
static float scal(void) { float s = in(); ASSUME(s >= 0.25f || s <= -0.25f); return s; }
//@ x=h_vec q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="sums, differences, multiples, quotients and their in-place forms of 2-, 3- and 4-vectors are componentwise, also when the result overwrites an operand"
void h_vec(void) {
    int k = (int)nd_in(0, 2); float s = scal();
#define VEC(N) { zpl_vec##N a = v##N(), b = v##N(), r, o; \
    zpl_vec##N##_add(&r, a, b); EACH(N, r, a.e[i] + b.e[i], "sum"); zpl_vec##N##_sub(&r, a, b); EACH(N, r, a.e[i] - b.e[i], "difference"); \
    zpl_vec##N##_mul(&r, a, s); EACH(N, r, a.e[i] * s, "multiple"); zpl_vec##N##_div(&r, a, s); EACH(N, r, a.e[i] / s, "quotient"); \
    o = a; zpl_vec##N##_addeq(&o, b); EACH(N, o, a.e[i] + b.e[i], "sum in place"); o = a; zpl_vec##N##_subeq(&o, b); EACH(N, o, a.e[i] - b.e[i], "difference in place"); \
    o = a; zpl_vec##N##_muleq(&o, s); EACH(N, o, a.e[i] * s, "multiple in place"); o = a; zpl_vec##N##_diveq(&o, s); EACH(N, o, a.e[i] / s, "quotient in place"); \
    o = a; zpl_vec##N##_sub(&o, b, o); EACH(N, o, b.e[i] - a.e[i], "result over an operand"); \
    float c[N]; for (int i = 0; i < N; i++) c[i] = a.e[i]; o = zpl_vec##N##fv(c); EACH(N, o, a.e[i], "from an array"); o = zpl_vec##N##f_zero(); EACH(N, o, 0, "zero"); }
    if (k == 0) VEC(2) else if (k == 1) VEC(3) else VEC(4)
    REACHED();
}
//@ x=h_dot q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="dot products, squared lengths, cross products (orthogonal, anti-commutative, Lagrange identity), side test and greatest component"
void h_dot(void) {
    zpl_vec2 a2 = v2(), b2 = v2(), c2 = v2(); zpl_vec3 a = v3(), b = v3(), c, d; zpl_vec4 a4 = v4(), b4 = v4(); float f;
    SAME(zpl_vec2_dot(a2, b2), a2.x * b2.x + a2.y * b2.y, "dot of 2"); SAME(zpl_vec3_dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z, "dot of 3"); SAME(zpl_vec4_dot(a4, b4), a4.x * b4.x + a4.y * b4.y + a4.z * b4.z + a4.w * b4.w, "dot of 4");
    SAME(zpl_vec2_mag2(a2), a2.x * a2.x + a2.y * a2.y, "squared length of 2"); SAME(zpl_vec3_mag2(a), a.x * a.x + a.y * a.y + a.z * a.z, "squared length of 3"); SAME(zpl_vec4_mag2(a4), a4.x * a4.x + a4.y * a4.y + a4.z * a4.z + a4.w * a4.w, "squared length of 4");
    zpl_vec2_cross(&f, a2, b2); SAME(f, a2.x * b2.y - a2.y * b2.x, "cross of 2"); zpl_vec3_cross(&c, a, b); SAME(c.x, a.y * b.z - a.z * b.y, "cross x"); SAME(c.y, a.z * b.x - a.x * b.z, "cross y"); SAME(c.z, a.x * b.y - a.y * b.x, "cross z");
    d = a; zpl_vec3_cross(&d, d, b); EACH(3, d, c.e[i], "cross over an operand");
    SAME(zpl_vec2_side(a2, b2, c2), (b2.x - a2.x) * (c2.y - a2.y) - (c2.x - a2.x) * (b2.y - a2.y), "side of a line");
    f = zpl_vec2_max(a2); CHECK(f >= a2.x && f >= a2.y && (f == a2.x || f == a2.y), "greatest of 2"); f = zpl_vec3_max(a); CHECK(f >= a.x && f >= a.y && f >= a.z && (f == a.x || f == a.y || f == a.z), "greatest of 3");
    REACHED();
}
//@ x=h_norm q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="lengths square to the squared length, normalising gives a parallel vector of length one, and the zero vector for zero where promised"
void h_norm(void) {
    int k = (int)nd_in(0, 2);
#define NORM(N) { zpl_vec##N a = v##N(), r; float m2 = 0, m; for (int i = 0; i < N; i++) m2 += a.e[i] * a.e[i]; ASSUME(m2 >= 1); m = zpl_vec##N##_mag(a); CHECK(m >= 0, "length is not negative"); SAME(m * m, m2, "length"); \
    zpl_vec##N##_norm(&r, a); EACH(N, r, a.e[i] / m, "normalised"); zpl_vec##N##_norm0(&r, a); EACH(N, r, a.e[i] / m, "normalised or zero"); r = a; zpl_vec##N##_norm(&r, r); EACH(N, r, a.e[i] / m, "normalised in place"); \
    zpl_vec##N##_norm0(&r, zpl_vec##N##f_zero()); for (int i = 0; i < N; i++) CHECK(r.e[i] == 0, "zero stays zero"); }
    if (k == 0) NORM(2) else if (k == 1) NORM(3) else NORM(4)
    REACHED();
}
//@ x=h_refl q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="reflection at a unit normal keeps the tangent and turns the normal part"
void h_refl(void) {
#define REFL(N) { zpl_vec##N i_ = v##N(), n = v##N(), r; float d = 0; for (int i = 0; i < N; i++) d += n.e[i] * i_.e[i]; zpl_vec##N##_reflect(&r, i_, n); EACH(N, r, i_.e[i] - 2 * d * n.e[i], "reflection"); }
    if (nd_bool()) REFL(2) else REFL(3)
    REACHED();
}
//@ x=h_refr q="T=60,J=4" t="T=300,J=4" opts="-real 2" what="refraction adds a multiple of the normal to the scaled incident vector, with Snell's normal part (its square, and its sign), and gives zero on total reflection"
void h_refr(void) {
    float eta = nd_f32(); ASSUME(eta >= 0.25f && eta <= 4);
#define REFR(N) { zpl_vec##N i_ = v##N(), n, r; for (int i = 0; i < N; i++) n.e[i] = 0; int ax = (int)nd_in(0, N - 1); n.e[ax] = nd_bool() ? 1 : -1; float d = n.e[ax] * i_.e[ax], k = 1 - eta * eta * (1 - d * d); ASSUME(k <= -0.1f || k >= 0.1f); \
    zpl_vec##N##_refract(&r, i_, n, eta); if (k < 0) { for (int i = 0; i < N; i++) CHECK(r.e[i] == 0, "total reflection"); } else { float w = -r.e[ax] * n.e[ax]; SAME(w * w, k, "normal part of the refracted vector"); CHECK(w >= 0, "away from the normal"); for (int i = 0; i < N; i++) if (i != ax) SAME(r.e[i], eta * i_.e[i], "tangential part scales"); } }
    if (nd_bool()) REFR(2) else REFR(3)
    REACHED();
}
#define MAT(N) static zpl_mat##N m##N(void) { zpl_mat##N m; for (int i = 0; i < N * N; i++) m.e[i] = in(); return m; }
MAT(2) MAT(3) MAT(4)
#define AT(m, N, r, c) ((m).e[(c) * (N) + (r)])   /* column-major */
//@ x=h_mul q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="matrix products are the row-by-column sums, also over an operand or squared in place; applying a product is applying its factors in turn"
void h_mul(void) {
    int k = (int)nd_in(0, 2), al = (int)nd_in(0, 3);
#define MUL(N) { zpl_mat##N a = m##N(), b = m##N(), r, *A_ = &a, *B_ = &b, *R_ = &r, a0 = a, b0; if (al == 3) B_ = &a; b0 = *B_; if (al == 1 || al == 3) R_ = &a; if (al == 2) R_ = &b; zpl_mat##N##_mul(R_, A_, B_); \
    for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) { float s = 0; for (int i = 0; i < N; i++) s += AT(a0, N, w, i) * AT(b0, N, i, c); SAME(AT(*R_, N, w, c), s, "product"); } \
    zpl_vec##N v = v##N(), x; zpl_mat##N##_mul_vec##N(&x, &a0, v); for (int w = 0; w < N; w++) { float s = 0; for (int i = 0; i < N; i++) s += AT(a0, N, w, i) * v.e[i]; SAME(x.e[w], s, "matrix times vector"); } \
    x = v; zpl_mat##N##_mul_vec##N(&x, &b0, x); for (int w = 0; w < N; w++) { float s = 0; for (int i = 0; i < N; i++) s += AT(b0, N, w, i) * v.e[i]; SAME(x.e[w], s, "matrix times vector in place"); } }
    if (k == 0) MUL(2) else if (k == 1) MUL(3) else MUL(4)
    REACHED();
}
//@ x=h_tr q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="transposing swaps rows and columns, identities are identities, copies copy exactly the matrix, views are the same storage"
void h_tr(void) {
    int k = (int)nd_in(0, 2);
    void zpl_mat2_copy(zpl_mat2 *, zpl_mat2 *); void zpl_mat3_copy(zpl_mat3 *, zpl_mat3 *);
#define TR(N, M) { struct { zpl_mat##N m, g; } a, c; a.m = m##N(); a.g = a.m; c = a; zpl_mat##N##_transpose(&a.m); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(AT(a.m, N, i, j) == AT(c.m, N, j, i), "transposed"); \
    zpl_mat##N##_identity(&a.m); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { CHECK(AT(a.m, N, i, j) == (i == j), "identity"); CHECK(AT(a.g, N, i, j) == AT(c.g, N, i, j), "only the matrix is written"); } \
    a.g.e[0] = 7; zpl_mat##N##_copy(&a.m, &c.m); for (int i = 0; i < N * N; i++) CHECK(a.m.e[i] == c.m.e[i] && (i || a.g.e[0] == 7), "copied"); CHECK((void *)zpl_float##M##_m(&a.m) == (void *)&a.m && (void *)zpl_mat##N##_f(zpl_float##M##_m(&a.m)) == (void *)&a.m && (void *)zpl_mat##N##_v(a.m.col) == (void *)&a.m && (void *)zpl_float##M##_v(a.m.col) == (void *)&a.m, "views"); }
    if (k == 0) TR(2, 22) else if (k == 1) TR(3, 33) else TR(4, 44)
    REACHED();
}
//@ x=h_det q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="determinants of 2x2 and 3x3 matrices are the Leibniz sums"
void h_det(void) {
    zpl_mat2 a = m2(); SAME(zpl_mat2_determinate(&a), a.e[0] * a.e[3] - a.e[2] * a.e[1], "2x2");
    zpl_mat3 b = m3(); float *e = b.e; SAME(zpl_mat3_determinate(&b), e[0] * e[4] * e[8] + e[3] * e[7] * e[2] + e[6] * e[1] * e[5] - e[6] * e[4] * e[2] - e[3] * e[1] * e[8] - e[0] * e[7] * e[5], "3x3"); REACHED();
}
//@ x=h_inv2 q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a 2x2 matrix times its inverse is the identity, also when inverted in place"
//@ x=h_inv3 q="T=60,J=4" t="T=300,J=8" opts="-real 2" what="a 3x3 matrix times its inverse is the identity, also when inverted in place"
//@ x=h_inv4 q="T=100,J=8" t="T=800,J=8" opts="-real 2" what="a 4x4 matrix times its inverse is the identity, also when inverted in place"
static float det4(float *e) { zpl_mat4 m; memcpy(m.e, e, sizeof m.e); float d = 0; for (int c = 0; c < 4; c++) { float x[9]; int k = 0; for (int j = 0; j < 4; j++) if (j != c) for (int i = 1; i < 4; i++) x[k++] = AT(m, 4, i, j); float q = x[0] * (x[4] * x[8] - x[5] * x[7]) - x[3] * (x[1] * x[8] - x[2] * x[7]) + x[6] * (x[1] * x[5] - x[2] * x[4]); d += (c & 1 ? -1 : 1) * AT(m, 4, 0, c) * q; } return d; }
static float det3(float *x) { return x[0] * (x[4] * x[8] - x[5] * x[7]) - x[3] * (x[1] * x[8] - x[2] * x[7]) + x[6] * (x[1] * x[5] - x[2] * x[4]); }
static float det2(float *x) { return x[0] * x[3] - x[1] * x[2]; }
#define INV(N) zpl_mat##N a = m##N(), a0 = a, r, *R_ = &r; float d = det##N(a0.e); ASSUME(d >= 0.5f || d <= -0.5f); if (nd_bool()) R_ = &a; zpl_mat##N##_inverse(R_, &a); \
    for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) { float s = 0; for (int i = 0; i < N; i++) s += AT(a0, N, w, i) * AT(*R_, N, i, c); SAME(s, w == c, "inverse"); }
void h_inv2(void) { INV(2) REACHED(); }
void h_inv3(void) { INV(3) REACHED(); }
void h_inv4(void) { INV(4) REACHED(); }
//@ x=h_misc q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="aspect ratios are width by height, or zero for a height below the threshold; flat arrays are views of matrices"
void h_misc(void) {
    zpl_vec2 v = v2(); float r = zpl_vec2_aspect_ratio(v); if (v.y >= 0.001f) SAME(r * v.y, v.x, "width by height"); if (v.y <= 0) SAME(r, 0, "no height");
    float a[16]; CHECK((void *)zpl_float22_4(a) == (void *)a && (void *)zpl_float33_9(a) == (void *)a && (void *)zpl_float44_16(a) == (void *)a, "views"); REACHED();
}
