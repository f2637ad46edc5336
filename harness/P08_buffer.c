// P08: fixed capacity buffer
#include "vp.h"
#ifndef K
#define K 4
#endif
//@ x=h_ops q="K=5,T=60;K=4,T=60" t="K=7,T=900,J=8;K=5,T=300" what="append/appendv/pop/clear/copy in any order equal the sequence model within the capacity"
void h_ops(void) {
    vp_live = 0; int cap = nd_pick(1, 5); zpl_u32 *x; zpl_buffer_init(x, vp_heap(), cap); zpl_u32 m[8]; int n = 0;
    CHECK(zpl_buffer_capacity(x) == cap && zpl_buffer_count(x) == 0, "fresh");
    for (int s = 0; s < K; s++) {
        int op = nd_pick(0, 3);
        if (op == 0) { ASSUME(n < cap); zpl_u32 v = nd_u32(); zpl_buffer_append(x, v); m[n++] = v; }
        else if (op == 1) { zpl_u32 v[3]; int k = nd_pick(0, 3); ASSUME(n + k <= cap); for (int i = 0; i < k; i++) v[i] = nd_u32(); zpl_buffer_appendv(x, v, k); for (int i = 0; i < k; i++) m[n++] = v[i]; }
        else if (op == 2) { ASSUME(n > 0); zpl_buffer_pop(x); n--; }
        else { zpl_buffer_clear(x); n = 0; }
        CHECK(zpl_buffer_count(x) == n && zpl_buffer_capacity(x) == cap, "count and capacity");
        for (int i = 0; i < n; i++) CHECK(x[i] == m[i], "contents");
        if (n) CHECK(*zpl_buffer_end(x) == m[n - 1], "end is the last element");
    }
    zpl_u32 *y; zpl_buffer_copy_init(y, x); zpl_buffer_free(x);
    CHECK(zpl_buffer_count(y) == n && zpl_buffer_capacity(y) == cap, "copy shape"); for (int i = 0; i < n; i++) CHECK(y[i] == m[i], "copy contents");
    zpl_buffer_free(y); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="T=60" what="buffers of tens of thousands of elements"
void h_large(void) {
    vp_live = 0; static zpl_u16 src[70000]; zpl_u16 *x; zpl_buffer_init(x, vp_heap(), 70000); int k = nd_pick(0, 3); zpl_isize n = k == 0 ? 255 : k == 1 ? 32767 : k == 2 ? 65535 : 69999; src[0] = nd_u16(); src[n - 1] = nd_u16(); zpl_buffer_appendv(x, src, n); zpl_u16 v = nd_u16(); zpl_buffer_append(x, v); CHECK(zpl_buffer_count(x) == n + 1 && zpl_buffer_capacity(x) == 70000, "count"); CHECK(x[0] == src[0] && x[n - 1] == src[n - 1] && x[n] == v && zpl_buffer_end(x) == x + n, "contents");
    zpl_u16 *y; zpl_buffer_copy_init(y, x); CHECK(zpl_buffer_count(y) == n + 1 && y[0] == src[0] && y[n] == v, "copy"); zpl_buffer_pop(x); CHECK(zpl_buffer_count(x) == n, "popped"); zpl_buffer_free(x); zpl_buffer_free(y); CHECK(vp_live == 0, "no leak"); REACHED();
}
