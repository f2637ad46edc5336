// P09: ring buffer
#include "vp.h"
#ifndef K
#define K 6
#endif
typedef zpl_u32 u32t;
ZPL_RING_DECLARE(static, rg_, u32t);
ZPL_RING_DEFINE(rg_, u32t);
//@ x=h_ops q="K=7,T=60;K=5,T=60" t="K=9,T=1200,J=8;K=7,T=400" what="any append/get/get_array sequence: insertion order, oldest overwritten when full"
void h_ops(void) {
    vp_live = 0; int cap = nd_pick(1, 4); rg_u32t r; rg_init(&r, vp_heap(), cap); zpl_u32 m[64]; int h = 0, t = 0;
    for (int s = 0; s < K; s++) {
        int op = nd_pick(0, 2);
        if (op == 0) { zpl_u32 v = nd_u32(); rg_append(&r, v); m[h++] = v; if (h - t > cap) t++; }
        else if (op == 1) { zpl_u32 *p = rg_get(&r); if (h == t) CHECK(p == NULL, "nothing to get from an empty ring"); else { CHECK(p && *p == m[t], "oldest element first"); t++; } }
        else { int k = nd_pick(0, 3); zpl_array(u32t) a = rg_get_array(&r, k, vp_heap()); int e = h - t < k ? h - t : k; CHECK(zpl_array_count(a) == e, "as many elements as asked and available"); for (int i = 0; i < e; i++) CHECK(a[i] == m[t + i], "in insertion order"); t += e; zpl_array_free(a); }
        CHECK(!!rg_empty(&r) == (h == t), "empty"); CHECK(!!rg_full(&r) == (h - t == cap), "full");
    }
    while (h > t) { zpl_u32 *p = rg_get(&r); CHECK(p && *p == m[t], "drained in order"); t++; }
    CHECK(rg_empty(&r) && !rg_get(&r), "drained"); rg_free(&r); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_array q="T=60" what="append_array equals appending one by one"
void h_array(void) {
    vp_live = 0; int cap = nd_pick(1, 3), n = nd_in(0, 5), pre = nd_in(0, 3); rg_u32t r; rg_init(&r, vp_heap(), cap); zpl_u32 m[16]; int h = 0;
    for (int i = 0; i < pre; i++) { zpl_u32 v = nd_u32(); rg_append(&r, v); m[h++] = v; }
    zpl_array(u32t) a; zpl_array_init(a, vp_heap()); for (int i = 0; i < n; i++) { zpl_u32 v = nd_u32(); zpl_array_append(a, v); m[h++] = v; }
    rg_append_array(&r, a); int t = h > cap ? h - cap : 0;
    while (t < h) { zpl_u32 *p = rg_get(&r); CHECK(p && *p == m[t], "newest elements in order"); t++; }
    CHECK(!rg_get(&r), "nothing more"); zpl_array_free(a); rg_free(&r); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="T=60" what="rings of several hundred places, filled beyond their capacity"
void h_large(void) {
    vp_live = 0; int cap = nd_pick(0, 1) ? 255 : 300, n = nd_pick(0, 1) ? cap : 2 * cap + 7; rg_u32t r; rg_init(&r, vp_heap(), cap); int sp = n - 1 - nd_pick(0, 3) * 60; zpl_u32 v = nd_u32(); for (int i = 0; i < n; i++) { rg_append(&r, i == sp ? v : (zpl_u32)i); CHECK(!rg_empty(&r) && !!rg_full(&r) == (i + 1 >= cap), "fill"); }
    for (int i = n - cap; i < n; i++) { zpl_u32 *p = rg_get(&r); CHECK(p && *p == (i == sp ? v : (zpl_u32)i), "newest elements in order"); } CHECK(rg_empty(&r) && !rg_get(&r), "drained"); rg_free(&r); CHECK(vp_live == 0, "no leak"); REACHED();
}
