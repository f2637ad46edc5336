// P06: heap allocator and default resize
//@ file -DVP_BYTEMEM -DZPL_HEAP_ANALYSIS
#include "vp.h"
//@ x=h_alloc q="T=90" what="alignment, zeroing, statistics, analysis header never in the user block"
void h_alloc(void) {
    zpl_heap_stats_init();
    int sz = nd_in(1, 40); zpl_isize al = (zpl_isize)1 << nd_in(3, 6);
    unsigned char *p = zpl_alloc_align(zpl_heap(), sz, al);
    CHECK(p != NULL, "served"); CHECK(((zpl_uintptr)p & (al - 1)) == 0, "block is aligned as requested");
    for (int k = 0; k < sz; k++) CHECK(p[k] == 0, "zeroed");
    int sz2 = 1 + 13 * nd_in(0, 3); unsigned char *q = zpl_alloc(zpl_heap(), sz2);
    CHECK(((zpl_uintptr)q & 15) == 0, "default alignment");
    CHECK(zpl_heap_stats_used_memory() == sz + sz2 && zpl_heap_stats_alloc_count() == 2, "statistics equal live blocks");
    for (int t = 0; t < sz; t++) p[t] = 0xFF; for (int t = 0; t < sz2; t++) q[t] = 0xEE;
    zpl_free(zpl_heap(), p);
    CHECK(zpl_heap_stats_used_memory() == sz2 && zpl_heap_stats_alloc_count() == 1, "statistics after one free");
    zpl_free(zpl_heap(), q);
    zpl_heap_stats_check();
    REACHED();
}
//@ x=h_resize q="T=90" what="resize: contents kept, no leak in statistics"
void h_resize(void) {
    zpl_heap_stats_init();
    int s0 = nd_in(1, 24), s1 = nd_in(0, 24); unsigned char v[24]; nd_bytes(v, 24);
    unsigned char *p = nd_bool() ? zpl_alloc(zpl_heap(), s0) : 0; int had = p != 0;
    if (p) for (int k = 0; k < s0; k++) p[k] = v[k];
    unsigned char *q = zpl_resize(zpl_heap(), p, had ? s0 : 0, s1);
    if (had && s1 == 0) { CHECK(q == NULL, "resize to nothing frees"); zpl_heap_stats_check(); }
    else {
        CHECK(q != NULL, "served");
        for (int k = 0; had && k < s0 && k < s1; k++) CHECK(q[k] == v[k], "common prefix kept");
        CHECK(zpl_heap_stats_alloc_count() == 1, "one block live");
        if (s1 > 0) q[s1 - 1] = 1;
        zpl_free(zpl_heap(), q); zpl_heap_stats_check();
    }
    REACHED();
}
//@ x=h_copy q="T=90" what="alloc_copy / alloc_str copies are exact and independent"
void h_copy(void) {
    vp_live = 0; unsigned char src[12]; nd_bytes(src, 12); int n = nd_in(0, 12);
    unsigned char *c = zpl_alloc_copy(vp_heap(), src, n); int k = nd_in(0, 11);
    unsigned char o = src[k]; src[k] ^= 0x55; if (k < n) CHECK(c[k] == o, "copy is exact and independent"); zpl_free(vp_heap(), c);
    int al = 4 << nd_in(0, 4); c = zpl_alloc_copy_align(zpl_heap(), src, n, al); CHECK(((uintptr_t)c & (al - 1)) == 0, "aligned copy"); if (k < n) CHECK(c[k] == src[k], "aligned copy is exact"); zpl_free(zpl_heap(), c);
    char s[9]; nd_str(s, 8); int L = 0; while (s[L]) L++;
    char *t = zpl_alloc_str(vp_heap(), s); int j = nd_in(0, 8); if (j <= L) CHECK(t[j] == s[j], "string copy incl. terminator"); zpl_free(vp_heap(), t);
    int m = nd_in(0, 8); ASSUME(m <= L); t = zpl_alloc_str_len(vp_heap(), s, m); if (j < m) CHECK(t[j] == s[j], "prefix"); CHECK(t[m] == 0, "terminated"); zpl_free(vp_heap(), t);
    CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="T=60" what="large blocks and alignments up to a page: aligned, counted exactly, contents kept by resizing"
void h_large(void) {
    static int const S[4] = { 4096, 65536, 70000, 1 << 20 }; zpl_heap_stats_init(); int n = S[nd_pick(0, 3)], m = S[nd_pick(0, 3)]; zpl_isize al = (zpl_isize)1 << nd_pick(7, 12); zpl_allocator h = zpl_heap(); unsigned char *p = (unsigned char *)h.proc(h.data, ZPL_ALLOCATION_ALLOC, n, al, 0, 0, 0); CHECK(p && ((zpl_uintptr)p & (al - 1)) == 0, "aligned"); p[0] = 3; p[4095] = 7; p[n - 1] = p[n - 1] == 7 ? 7 : 9; CHECK(zpl_heap_stats_used_memory() == n && zpl_heap_stats_alloc_count() == 1, "statistics");
    unsigned char *q = (unsigned char *)zpl_default_resize_align(h, p, n, m, al); CHECK(q && ((zpl_uintptr)q & (al - 1)) == 0, "aligned after resizing"); CHECK(q[0] == 3 && q[4095] == 7, "contents kept"); q[m - 1] = 1; if (m > n) CHECK(zpl_heap_stats_alloc_count() == 1 && zpl_heap_stats_used_memory() == m, "statistics after resizing"); zpl_free(h, q); zpl_heap_stats_check(); REACHED();
}
//@ x=h_copy_fail q="T=60" what="copy helpers report a refused allocation and leave the source alone"
void h_copy_fail(void) {
    vp_live = 0; vp_allocs = 0; vp_fail_at = 0; char s[5] = { nd_char(), nd_char(), nd_char(), nd_char(), 0 }, c[5]; for (int i = 0; i < 5; i++) c[i] = s[i]; void *r = NULL; int k = nd_pick(0, 3);
    switch (k) { case 0: r = zpl_alloc_copy(vp_heap(), s, 5); break; case 1: r = zpl_alloc_copy_align(vp_heap(), s, 5, 16); break; case 2: r = zpl_alloc_str(vp_heap(), s); break; case 3: r = zpl_alloc_str_len(vp_heap(), s, 3); break; } vp_fail_at = -1;
    CHECK(!r && vp_live == 0, "a refused allocation is reported"); for (int i = 0; i < 5; i++) CHECK(s[i] == c[i], "the source is untouched"); REACHED();
}
