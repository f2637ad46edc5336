// P07: dynamic array against a sequence model
#include "vp.h"
#ifndef K
#define K 4
#endif
#define MX 40
typedef struct { unsigned char a; unsigned short b; } el;   /* 4 bytes with padding */
static int elq(el x, el y) { return x.a == y.a && x.b == y.b; }
static el nd_el(void) { el e; memset(&e, 0, sizeof e); e.a = nd_u8(); e.b = nd_u16(); return e; }
static el m[MX]; static int n;
static void same(zpl_array(el) x) {
    CHECK(zpl_array_count(x) == n, "count equals the model");
    CHECK(zpl_array_capacity(x) >= n, "capacity covers the count");
    for (int i = 0; i < n; i++) CHECK(elq(x[i], m[i]), "contents equal the model");
    if (n) { CHECK(elq(zpl_array_back(x), m[n - 1]) && elq(zpl_array_front(x), m[0]), "front and back"); CHECK(zpl_array_end(x) == x + n - 1, "end"); }
}
//@ x=h_ops q="K=3,T=100" t="K=5,T=1500,J=8;K=4,T=600,J=8" what="any operation sequence equals the sequence model; exact-size blocks, no leak"
void h_ops(void) {
    vp_live = 0; n = 0; zpl_array(el) x; int cap0 = nd_pick(0, 2);
    CHECK(zpl_array_init_reserve(x, vp_heap(), cap0) && zpl_array_capacity(x) == cap0, "init");
    for (int step = 0; step < K; step++) {
        int op = nd_pick(0, 9);
        if (op == 0) { el e = nd_el(); CHECK(zpl_array_append(x, e), "append"); m[n++] = e; }
        else if (op == 1) { el e = nd_el(); int p = nd_pick(0, n); CHECK(zpl_array_append_at(x, e, p), "append_at"); for (int i = n; i > p; i--) m[i] = m[i - 1]; m[p] = e; n++; }
        else if (op == 2) { el v[3]; int k = nd_pick(0, 3); for (int i = 0; i < k; i++) v[i] = nd_el(); CHECK(zpl_array_appendv(x, v, k), "appendv"); for (int i = 0; i < k; i++) m[n++] = v[i]; }
        else if (op == 3) { el v[2]; int k = nd_pick(1, 2); for (int i = 0; i < k; i++) v[i] = nd_el(); int p = nd_pick(0, n); CHECK(zpl_array_appendv_at(x, v, k, p), "appendv_at"); for (int i = n - 1; i >= p; i--) m[i + k] = m[i]; for (int i = 0; i < k; i++) m[p + i] = v[i]; n += k; }
        else if (op == 4) { ASSUME(n > 0); int p = nd_pick(0, n - 1); zpl_array_remove_at(x, p); for (int i = p; i + 1 < n; i++) m[i] = m[i + 1]; n--; }
        else if (op == 5) { ASSUME(n > 0); zpl_array_pop(x); n--; }
        else if (op == 6) { int c = nd_pick(0, n + 3), o = n; CHECK(zpl_array_resize(x, c), "resize"); CHECK(zpl_array_count(x) == c, "resized"); for (int i = o; i < c; i++) { el e = nd_el(); x[i] = e; m[i] = e; } n = c; }
        else if (op == 7) { int c = nd_pick(0, n + 2); CHECK(zpl_array_set_capacity(x, c), "set_capacity"); CHECK(zpl_array_capacity(x) == c, "capacity is the requested one"); if (c < n) n = c; }
        else if (op == 8) { int c = nd_pick(0, n + 2); zpl_isize before = zpl_array_capacity(x); CHECK(zpl_array_reserve(x, c), "reserve"); CHECK(zpl_array_capacity(x) >= c && zpl_array_capacity(x) >= before, "reserve never shrinks"); }
        else { if (n > 1) { el e = nd_el(); int b = nd_pick(0, n - 1), f = nd_pick(0, n); zpl_array_fill(x, b, f, e); for (int i = b; i < f; i++) m[i] = e; } else { zpl_array_clear(x); n = 0; } }
        same(x);
    }
    zpl_array(el) y; CHECK(zpl_array_copy_init(y, x), "copy"); same(y);
    zpl_array_free(x); same(y); zpl_array_free(y);
    CHECK(vp_live == 0, "every block is returned");
    REACHED();
}
//@ x=h_grow q="T=60" what="growth across several reallocations from the default capacity; append order kept"
void h_grow(void) {
    vp_live = 0; n = 0; zpl_array(el) x; zpl_array_init(x, vp_heap()); CHECK(zpl_array_capacity(x) == 8, "default capacity");
    for (int i = 0; i < 34; i++) { el e = nd_el(); zpl_array_append(x, e); m[n++] = e; }
    same(x); zpl_array_free(x); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_fail q="T=60" what="allocation failure is reported and leaves the array unchanged"
void h_fail(void) {
    vp_live = 0; n = 0; vp_allocs = 0; vp_fail_at = -1; zpl_array(el) x; int cap0 = nd_in(1, 3); zpl_array_init_reserve(x, vp_heap(), cap0);
    for (int i = 0; i < cap0; i++) { el e = nd_el(); zpl_array_append(x, e); m[n++] = e; }
    vp_fail_at = 0; vp_allocs = 0; el e = nd_el(); int op = nd_pick(0, 5); zpl_b32 r = true;
    if (op == 0) r = zpl_array_append(x, e); else if (op == 1) r = zpl_array_append_at(x, e, 0); else if (op == 2) r = zpl_array_appendv(x, &e, 1); else if (op == 3) r = zpl_array_resize(x, n + 1); else if (op == 4) r = zpl_array_reserve(x, n + 1); else r = zpl_array_set_capacity(x, n - 1);
    CHECK(!r, "failure is reported"); same(x);
    zpl_array(el) y = 0; CHECK(!zpl_array_init(y, vp_heap()), "failed initialisation is reported");
    zpl_array_free(x); CHECK(vp_live == 0, "no leak"); vp_fail_at = -1; REACHED();
}
//@ x=h_bulk q="T=60" what="appending many elements at once, far beyond the usual growth, at the end and anywhere else"
void h_bulk(void) {
    vp_live = 0; n = 0; zpl_array(el) x; zpl_array_init_reserve(x, vp_heap(), nd_pick(0, 2)); int a = nd_pick(0, 2); for (int i = 0; i < a; i++) { el e = nd_el(); zpl_array_append(x, e); m[n++] = e; }
    el v[16]; int k = nd_pick(12, 16), p = nd_pick(0, n); for (int i = 0; i < k; i++) v[i] = nd_el(); CHECK(nd_pick(0, 1) && p == n ? zpl_array_appendv(x, v, k) : zpl_array_appendv_at(x, v, k, p), "appended");
    for (int i = n - 1; i >= p; i--) m[i + k] = m[i]; for (int i = 0; i < k; i++) m[p + i] = v[i]; n += k; same(x); zpl_array_free(x); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" what="thousands of elements of 1, 4 and 40 bytes: growing one by one, inserting and removing near the front, copying"
typedef struct { unsigned char k[40]; } fat;
void h_large(void) {
    vp_live = 0; vp_fail_at = -1; int l = nd_pick(0, 1) ? 300 : 70000, w = nd_pick(0, 2), p = nd_pick(0, 2); if (p == 2) p = 255; unsigned char u = nd_u8();
    if (w == 0) { zpl_array(unsigned char) x; zpl_array_init(x, vp_heap()); for (int i = 0; i < l; i++) { if (!zpl_array_append(x, (unsigned char)(i * 7))) CHECK(0, "append"); } CHECK(zpl_array_count(x) == l, "count"); CHECK(zpl_array_append_at(x, u, p) && zpl_array_count(x) == l + 1, "inserted"); for (int i = 0; i < l; i++) if (x[i < p ? i : i + 1] != (unsigned char)(i * 7)) CHECK(0, "contents"); CHECK(x[p] == u, "the new element"); zpl_array_remove_at(x, p); CHECK(zpl_array_count(x) == l, "removed"); for (int i = 0; i < l; i++) if (x[i] != (unsigned char)(i * 7)) CHECK(0, "contents"); zpl_array_free(x); }
    else if (w == 1) { zpl_array(int) x; zpl_array(int) y; zpl_array_init(x, vp_heap()); for (int i = 0; i < l; i++) zpl_array_append(x, i); CHECK(zpl_array_append_at(x, u, p), "inserted"); CHECK(zpl_array_copy_init(y, x) && zpl_array_count(y) == l + 1, "copied"); for (int i = 0; i < l; i++) if (y[i < p ? i : i + 1] != i) CHECK(0, "contents"); CHECK(y[p] == u, "the new element"); zpl_array_free(x); zpl_array_free(y); }
    else { zpl_array(fat) x; fat f; zpl_array_init(x, vp_heap()); int k = l > 2000 ? 2000 : l; for (int i = 0; i < k; i++) { memset(&f, i, sizeof f); zpl_array_append(x, f); } memset(&f, 1, sizeof f); f.k[39] = u; CHECK(zpl_array_append_at(x, f, p), "inserted"); CHECK(x[p].k[39] == u && x[p].k[0] == 1, "the new element"); for (int i = 0; i < k; i++) { fat *g = x + (i < p ? i : i + 1); if (g->k[0] != (unsigned char)i || g->k[39] != (unsigned char)i) CHECK(0, "contents"); } CHECK(zpl_array_resize(x, p + 1) && zpl_array_count(x) == p + 1 && x[p].k[39] == u, "cut"); zpl_array_free(x); }
    CHECK(vp_live == 0, "no leak"); REACHED();
}
