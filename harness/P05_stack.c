// P05: stack allocator
//@ file -DVP_BYTEMEM
#include "vp.h"
#ifndef K
#define K 4
#endif
#ifndef BUF
#define BUF 128
#endif
static __attribute__((aligned(64))) unsigned char buf[BUF + 32];
//@ x=h_lifo q="K=3,T=90;K=2,T=60" t="K=4,BUF=160,T=1200,J=8;K=3,T=600,J=8" what="push/pop any sizes and alignments in fixed memory"
void h_lifo(void) {
    zpl_stack_memory s; zpl_zero_item(&s); int off = 4 * nd_in(0, 3) + nd_in(0, 1);
    zpl_stack_memory_init_from_memory(&s, buf + off, BUF);
    CHECK(s.backing.proc == 0, "no backing allocator");
    zpl_allocator al = zpl_stack_allocator(&s);
    unsigned char *st[K]; int len[K]; unsigned char tag[K]; zpl_usize before[K]; int n = 0;
    for (int i = 0; i < K; i++) {
        if (nd_bool()) {
            int sz = 1 + 5 * nd_in(0, 3); zpl_isize align = (zpl_isize)1 << nd_in(0, 4);
            ASSUME(s.allocated + 8 + 16 + 8 + (unsigned)sz + 8 <= BUF);   /* overflow without backing is a documented panic */
            before[n] = s.allocated;
            unsigned char *q = zpl_alloc_align(al, sz, align);
            CHECK(((zpl_uintptr)q & (align - 1)) == 0, "block is aligned");
            CHECK(q >= buf + off && q + sz <= buf + off + BUF, "block inside the memory");
            for (int j = 0; j < K; j++) if (j < n) CHECK(q >= st[j] + len[j], "block above every older block");
            CHECK(zpl_stack_memory_is_in_use(&s, q), "in use");
            st[n] = q; len[n] = sz; tag[n] = nd_u8(); for (int t = 0; t < 16; t++) if (t < sz) q[t] = tag[n];
            n++;
        } else {
            ASSUME(n > 0); n--; for (int k = 0; k < len[n]; k++) CHECK(st[n][k] == tag[n], "contents survive");
            zpl_free(al, st[n]);
            CHECK(s.allocated == before[n], "freeing the top restores the previous level");
        }
    }
    zpl_free_all(al); CHECK(s.allocated == 0, "free_all");
    REACHED();
}
//@ x=h_grow q="T=90" what="growth through the backing allocator keeps every block's contents and stays in bounds"
void h_grow(void) {
    zpl_stack_memory s; vp_live = 0; int total = 1 + 4 * nd_in(0, 5);
    zpl_stack_memory_init(&s, vp_heap(), total);
    zpl_allocator al = zpl_stack_allocator(&s);
    int s0 = 1 + 3 * nd_in(0, 3), s1 = 1 + 3 * nd_in(0, 4), s2 = 1 + 11 * nd_in(0, 2);
    unsigned char *a = zpl_alloc_align(al, s0, 8); zpl_isize oa = a - (unsigned char *)s.physical_start; unsigned char v = nd_u8(); for (int k = 0; k < s0; k++) a[k] = v + k;
    unsigned char *b = zpl_alloc_align(al, s1, 1 << nd_in(0, 4)); for (int t = 0; t < s1; t++) b[t] = 0x33;
    CHECK(b + s1 <= (unsigned char *)s.physical_start + s.total_size, "block inside the recorded size");
    unsigned char *c = zpl_alloc_align(al, s2, 8); for (int t = 0; t < s2; t++) c[t] = 0x44;
    CHECK(c + s2 <= (unsigned char *)s.physical_start + s.total_size, "block inside the recorded size");
    for (int k = 0; k < s0; k++) CHECK(((unsigned char *)s.physical_start)[oa + k] == (unsigned char)(v + k), "older contents survive growth");
    zpl_free(al, c);
    zpl_stack_memory_free(&s);
    CHECK(vp_live == 0, "backing returned");
    REACHED();
}
//@ x=h_large q="T=60" what="blocks of more than 64 KiB: in order, in bounds across growth, popped exactly"
void h_large(void) {
    static int const S[4] = { 9, 65536, 70000, 131080 }; zpl_stack_memory s; vp_live = 0; zpl_stack_memory_init(&s, vp_heap(), nd_pick(0, 1) ? 64 : 300000); zpl_allocator a = zpl_stack_allocator(&s); zpl_isize o[3], lvl[3]; int n[3];
    for (int i = 0; i < 3; i++) { n[i] = S[nd_pick(0, 3)]; lvl[i] = (zpl_isize)s.allocated; unsigned char *q = (unsigned char *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, n[i], 8, 0, 0, 0); CHECK(q, "served"); unsigned char *b = (unsigned char *)s.physical_start; o[i] = q - b; CHECK(o[i] >= 0 && o[i] + n[i] <= (zpl_isize)s.total_size, "inside the recorded size"); q[0] = (unsigned char)(i + 1); q[n[i] - 1] = (unsigned char)(i + 5); if (i) CHECK(o[i] >= o[i - 1] + n[i - 1], "above the older block"); }
    unsigned char *b = (unsigned char *)s.physical_start; for (int i = 2; i >= 0; i--) { CHECK(b[o[i]] == i + 1 && b[o[i] + n[i] - 1] == i + 5, "contents kept across growth"); zpl_free(a, b + o[i]); CHECK((zpl_isize)s.allocated == lvl[i], "back to the previous level"); }
    zpl_stack_memory_free(&s); CHECK(vp_live == 0, "backing returned"); REACHED();
}
//@ x=h_fit q="T=60" what="requests that exactly fill fixed memory are served, as the only block or on top of others; an exact fit needs no growth; addresses outside, and all addresses of an empty stack, are not in use"
void h_fit(void) {
    static int const B_[4] = { 16, 32, 64, 128 }; int total = B_[nd_pick(0, 3)], below = nd_pick(0, 1) && total > 32, own = nd_pick(0, 1); zpl_stack_memory s; zpl_zero_item(&s); vp_live = 0; vp_fail_at = -1;
    if (own) zpl_stack_memory_init(&s, vp_heap(), total); else zpl_stack_memory_init_from_memory(&s, buf, total); int al0 = vp_allocs; zpl_allocator al = zpl_stack_allocator(&s); unsigned char *b = (unsigned char *)s.physical_start, *p = 0; CHECK(!zpl_stack_memory_is_in_use(&s, b) && !zpl_stack_memory_is_in_use(&s, b + 8) && !zpl_stack_memory_is_in_use(&s, b + total - 1), "nothing is in use");
    if (below) { p = (unsigned char *)zpl_alloc_align(al, 8, 8); CHECK(p == b + 8, "right behind its offset"); p[7] = 0x5A; } int at = (int)s.allocated, z = total - at - 8; unsigned char *q = (unsigned char *)zpl_alloc_align(al, z, 8); CHECK(q == b + at + 8 && (unsigned char *)s.physical_start == b && (int)s.total_size == total && (int)s.allocated == total && vp_allocs == al0, "served from the same memory"); for (int i = 0; i < z; i++) q[i] = (unsigned char)i;
    CHECK(zpl_stack_memory_is_in_use(&s, q) && zpl_stack_memory_is_in_use(&s, q + z - 1), "in use"); CHECK(!zpl_stack_memory_is_in_use(&s, b + total) && !zpl_stack_memory_is_in_use(&s, b - 1), "addresses outside"); if (below) CHECK(p[7] == 0x5A && zpl_stack_memory_is_in_use(&s, p), "older block");
    zpl_free(al, q); CHECK((int)s.allocated == at, "previous level"); if (below) { zpl_free(al, p); CHECK(s.allocated == 0 && !zpl_stack_memory_is_in_use(&s, p), "nothing is in use"); } if (own) { zpl_stack_memory_free(&s); CHECK(vp_live == 0, "backing returned"); } REACHED();
}
