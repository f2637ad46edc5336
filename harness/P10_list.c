// P10: linked list
#include "vp.h"
#ifndef K
#define K 5
#endif
//@ x=h_ops q="K=5,T=60" t="K=7,T=900,J=8;K=6,T=300" what="any insertion/removal sequence: forward and backward walks mirror the model"
void h_ops(void) {
    zpl_list nd[K + 1]; int m[K + 2], n = 1, used = 1; int data[K + 1];
    zpl_list_init(&nd[0], &data[0]); m[0] = 0; CHECK(!nd[0].next && !nd[0].prev && nd[0].ptr == &data[0], "fresh node");
    for (int s = 0; s < K; s++) {
        if (nd_bool()) { int p = nd_pick(0, n - 1), q = used++; zpl_list_init(&nd[q], &data[q]); zpl_list *r = zpl_list_add(&nd[m[p]], &nd[q]); CHECK(r == &nd[q], "add returns the item"); for (int i = n; i > p + 1; i--) m[i] = m[i - 1]; m[p + 1] = q; n++; }
        else { ASSUME(n > 1); int p = nd_pick(0, n - 1); zpl_list *nx = zpl_list_remove(&nd[m[p]]); CHECK(nx == (p + 1 < n ? &nd[m[p + 1]] : NULL), "remove returns the following node"); for (int i = p; i + 1 < n; i++) m[i] = m[i + 1]; n--; }
        zpl_list *l = &nd[m[0]]; CHECK(!l->prev, "head has no predecessor");
        for (int i = 0; i < n; i++) { CHECK(l == &nd[m[i]] && l->ptr == &data[m[i]], "forward order"); if (i + 1 < n) { CHECK(l->next && l->next->prev == l, "back link mirrors forward link"); l = l->next; } else CHECK(!l->next, "tail has no successor"); }
    }
    REACHED();
}
