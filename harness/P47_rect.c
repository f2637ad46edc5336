// P47: rectangles and boxes against their edges, decided over the reals
#include "vp.h"
#ifndef LIM
#define LIM 64
#endif
static float in(void) { float f = nd_f32(); ASSUME(f >= -LIM && f <= LIM); return f; }
static float pos(void) { float f = nd_f32(); ASSUME(f >= 0 && f <= LIM); return f; }
static int near_(double a, double b) { double d = a - b; return d <= 0.001 && d >= -0.001; }
static int btw(float x, float a, float b) { return a <= b ? x >= a && x < b : x >= b && x < a; }
static int has(zpl_rect2 r, float x, float y) { return btw(x, r.pos.x, r.pos.x + r.dim.x) && btw(y, r.pos.y, r.pos.y + r.dim.y); }
static zpl_rect2 rect(void) { float a = in(), b = in(), c = in(), d = in(); return zpl_rect2f(zpl_vec2f(a, b), zpl_vec2f(c, d)); }
static zpl_aabb2 box(void) { float a = in(), b = in(), c = in(), d = in(); ASSUME(a <= c && b <= d); return zpl_aabb2f(a, b, c, d); }
static int same(zpl_aabb2 b, float x0, float y0, float x1, float y1) { return near_(b.min.x, x0) && near_(b.min.y, y0) && near_(b.max.x, x1) && near_(b.max.y, y1); }
//@ x=h_contains q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a rectangle (of either orientation) and a box contain the points from their lower up to but not including their upper edges"
void h_contains(void) {
    float x = in(), y = in(), z = in(); int k = (int)nd_pick(0, 2);
    if (k == 0) { zpl_rect2 r = rect(); int e = has(r, x, y); CHECK(!zpl_rect2_contains(r, x, y) == !e, "rectangle"); CHECK(!zpl_rect2_contains_vec2(r, zpl_vec2f(x, y)) == !e, "rectangle, vector form"); }
    else if (k == 1) { float a = in(), b = in(), c = in(), d = in(); CHECK(!zpl_aabb2_contains(zpl_aabb2f(a, b, c, d), x, y) == !(x >= a && x < c && y >= b && y < d), "box"); }
    else { float a = in(), b = in(), c = in(), d = in(), e = in(), f = in(); CHECK(!zpl_aabb3_contains(zpl_aabb3f(a, b, c, d, e, f), x, y, z) == !(x >= a && x < d && y >= b && y < e && z >= c && z < f), "box in space"); }
    REACHED();
}
//@ x=h_inter q="T=60,J=4" t="T=300,J=8" opts="-real 2" what="two rectangles intersect exactly in the rectangle of their common points, in either order"
void h_inter(void) {
    zpl_rect2 a = rect(), b = rect(), r = {0}; float x = in(), y = in(); int i = zpl_rect2_intersection_result(a, b, &r); CHECK(!zpl_rect2_intersects(a, b) == !i && !zpl_rect2_intersects(b, a) == !i, "intersects"); int both = has(a, x, y) && has(b, x, y);
    if (i) { CHECK(r.dim.x > 0 && r.dim.y > 0, "not empty"); CHECK(!has(r, x, y) == !both, "common points"); } else { CHECK(!both, "no common point"); CHECK(r.pos.x == 0 && r.pos.y == 0 && r.dim.x == 0 && r.dim.y == 0, "empty rectangle"); }
    REACHED();
}
//@ x=h_conv q="T=60,J=2" t="T=300,J=4" opts="-real 2" what="a rectangle as a box has the same edges, and as a rectangle again the same place and size; constructors fill every field"
void h_conv(void) {
    zpl_rect2 r = rect(); zpl_aabb2 b = zpl_aabb2_rect2(r); CHECK(same(b, r.pos.x, r.pos.y, r.pos.x + r.dim.x, r.pos.y + r.dim.y), "as a box"); zpl_rect2 q = zpl_rect2_aabb2(b); CHECK(near_(q.pos.x, r.pos.x) && near_(q.pos.y, r.pos.y) && near_(q.dim.x, r.dim.x) && near_(q.dim.y, r.dim.y), "as a rectangle");
    zpl_vec3 p, d; for (int i = 0; i < 3; i++) { p.e[i] = in(); d.e[i] = in(); } zpl_rect3 s = zpl_rect3f(p, d), t; zpl_aabb3 c = zpl_aabb3_rect3(s), e; t = zpl_rect3_aabb3(c); for (int i = 0; i < 3; i++) { CHECK(s.pos.e[i] == p.e[i] && s.dim.e[i] == d.e[i], "rectangle in space"); CHECK(near_(c.min.e[i], p.e[i]) && near_(c.max.e[i], p.e[i] + d.e[i]), "as a box in space"); CHECK(near_(t.pos.e[i], p.e[i]) && near_(t.dim.e[i], d.e[i]), "as a rectangle in space"); }
    e = zpl_aabb3f(p.x, p.y, p.z, d.x, d.y, d.z); for (int i = 0; i < 3; i++) CHECK(e.min.e[i] == p.e[i] && e.max.e[i] == d.e[i], "box in space"); REACHED();
}
//@ x=h_cut q="T=60,J=4" t="T=300,J=4" opts="-real 2" what="cutting a piece off a side takes at most the asked amount (all of the box when it is less), piece and rest share the new edge; getting a piece leaves the box alone; adding one lies outside against the side"
void h_cut(void) {
    zpl_aabb2 a = box(), r = a, p, g, d; float b = pos(), w = a.max.x - a.min.x, h = a.max.y - a.min.y, cx = b < w ? b : w, cy = b < h ? b : h; int k = (int)nd_pick(0, 3); const zpl_aabb2 *ca = &a; zpl_aabb2 o = a;
    if (k == 0) { p = zpl_aabb2_cut_left(&r, b); CHECK(same(p, a.min.x, a.min.y, a.min.x + cx, a.max.y), "left piece"); CHECK(same(r, a.min.x + cx, a.min.y, a.max.x, a.max.y), "rest right of it"); g = zpl_aabb2_get_left(ca, b); d = zpl_aabb2_add_left(ca, b); CHECK(same(d, a.min.x - b, a.min.y, a.min.x, a.max.y), "added left"); }
    else if (k == 1) { p = zpl_aabb2_cut_right(&r, b); CHECK(same(p, a.max.x - cx, a.min.y, a.max.x, a.max.y), "right piece"); CHECK(same(r, a.min.x, a.min.y, a.max.x - cx, a.max.y), "rest left of it"); g = zpl_aabb2_get_right(ca, b); d = zpl_aabb2_add_right(ca, b); CHECK(same(d, a.max.x, a.min.y, a.max.x + b, a.max.y), "added right"); }
    else if (k == 2) { p = zpl_aabb2_cut_top(&r, b); CHECK(same(p, a.min.x, a.min.y, a.max.x, a.min.y + cy), "top piece"); CHECK(same(r, a.min.x, a.min.y + cy, a.max.x, a.max.y), "rest below it"); g = zpl_aabb2_get_top(ca, b); d = zpl_aabb2_add_top(ca, b); CHECK(same(d, a.min.x, a.min.y - b, a.max.x, a.min.y), "added on top"); }
    else { p = zpl_aabb2_cut_bottom(&r, b); CHECK(same(p, a.min.x, a.max.y - cy, a.max.x, a.max.y), "bottom piece"); CHECK(same(r, a.min.x, a.min.y, a.max.x, a.max.y - cy), "rest above it"); g = zpl_aabb2_get_bottom(ca, b); d = zpl_aabb2_add_bottom(ca, b); CHECK(same(d, a.min.x, a.max.y, a.max.x, a.max.y + b), "added below"); }
    CHECK(same(g, p.min.x, p.min.y, p.max.x, p.max.y), "got piece"); CHECK(same(a, o.min.x, o.min.y, o.max.x, o.max.y), "box left alone"); REACHED();
}
//@ x=h_shrink q="T=60,J=4" t="T=300,J=4" opts="-real 2" what="shrinking moves every edge inward by the amount, growing outward; a box that would turn inside out becomes empty"
void h_shrink(void) {
    zpl_aabb2 a = box(), r; float b = in(); int k = (int)nd_pick(0, 1); float m = k ? -b : b; r = k ? zpl_aabb2_expand(&a, b) : zpl_aabb2_contract(&a, b); float x0 = a.min.x + m, y0 = a.min.y + m, x1 = a.max.x - m, y1 = a.max.y - m;
    if (x0 > x1 + 0.001 || y0 > y1 + 0.001) CHECK(same(r, 0, 0, 0, 0), "turned inside out"); else if (x0 < x1 - 0.001 && y0 < y1 - 0.001) CHECK(same(r, x0, y0, x1, y1), "edges"); REACHED();
}
