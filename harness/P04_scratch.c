// P04: scratch (ring) allocator
//@ file -DVP_BYTEMEM
#include "vp.h"
#ifndef K
#define K 4
#endif
#ifndef BUF
#define BUF 96
#endif
static __attribute__((aligned(64))) unsigned char buf[BUF + 32];
#ifndef AMAX
#define AMAX 4
#endif
//@ x=h_seq q="K=3,BUF=48,T=60;K=2,BUF=48,T=60" t="K=4,BUF=64,T=1200,J=8;K=3,BUF=64,T=600,J=8" what="any alloc/free interleaving incl. wrap-around, any size/alignment"
void h_seq(void) {
    zpl_scratch_memory s; int total = 8 * nd_in(2, BUF / 8);
    zpl_scratch_memory_init(&s, buf + 16, total);
    zpl_allocator al = zpl_scratch_allocator(&s);
    unsigned char *live[K]; int len[K]; unsigned char tag[K]; for (int i = 0; i < K; i++) live[i] = 0;
    for (int t = 0; t < BUF + 32; t++) buf[t] = 0xEE;
    int nl = 0;
    for (int i = 0; i < K; i++) {
        if (nd_bool()) {
            int sz = nd_in(1, BUF / 2); zpl_isize align = (zpl_isize)1 << nd_in(2, AMAX);
            unsigned char *q = zpl_alloc_align(al, sz, align);
            if (!q) { if (nl == 0) CHECK(total < 8 + sz + 7 + align, "an empty scratch buffer serves a request that fits"); continue; }
            CHECK(((zpl_uintptr)q & (align - 1)) == 0, "block is aligned");
            CHECK(q >= buf + 16 && q + sz <= buf + 16 + total, "block inside the buffer");
            CHECK(zpl_scratch_memory_is_in_use(&s, q), "a live block is reported in use");
            for (int j = 0; j < K; j++) if (live[j]) CHECK(q + sz <= live[j] || live[j] + len[j] <= q, "live blocks are disjoint");
            for (int k = 0; k < sz; k++) CHECK(q[k] == 0, "block is zeroed");
            live[i] = q; len[i] = sz; tag[i] = nd_u8(); nl++;
            for (int t = 0; t < sz; t++) q[t] = tag[i];
        } else {
            int w = nd_in(0, K - 1); ASSUME(live[w]);
            for (int k = 0; k < len[w]; k++) CHECK(live[w][k] == tag[w], "contents survive other operations");
            zpl_free(al, live[w]); live[w] = 0; nl--;
        }
    }
    for (int t = 0; t < BUF + 32; t++) if (t < 16 || t >= 16 + total) CHECK(buf[t] == 0xEE, "nothing outside the buffer is written");
    zpl_free_all(al);
    CHECK(s.alloc_point == s.free_point, "free_all empties the buffer");
    REACHED();
}
//@ x=h_large q="T=60" what="blocks of more than 64 KiB in a buffer of several: disjoint, inside, aligned, reusable after being freed in any order"
void h_large(void) {
    static int const S[4] = { 65528, 65536, 70000, 131080 }; unsigned char *mem = (unsigned char *)malloc(400016), *lo = (unsigned char *)(((zpl_uintptr)mem + 15) & ~(zpl_uintptr)15); zpl_scratch_memory s; zpl_scratch_memory_init(&s, lo, 400000); zpl_allocator a = zpl_scratch_allocator(&s); unsigned char *q[2]; int n[2];
    for (int i = 0; i < 2; i++) { n[i] = S[nd_pick(0, 3)]; q[i] = (unsigned char *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, n[i], 16, 0, 0, 0); CHECK(q[i] && ((zpl_uintptr)q[i] & 15) == 0, "served and aligned"); CHECK(q[i] >= lo && q[i] + n[i] <= lo + 400000, "inside"); q[i][0] = (unsigned char)(i + 1); q[i][n[i] - 1] = (unsigned char)(i + 5); CHECK(zpl_scratch_memory_is_in_use(&s, q[i]), "in use"); }
    CHECK(q[0] + n[0] <= q[1] || q[1] + n[1] <= q[0], "disjoint"); for (int i = 0; i < 2; i++) CHECK(q[i][0] == i + 1 && q[i][n[i] - 1] == i + 5, "contents kept");
    int f = nd_pick(0, 1); zpl_free(a, q[f]); int z = S[nd_pick(0, 3)]; unsigned char *r = (unsigned char *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, z, 16, 0, 0, 0), *k = q[!f]; int kn = n[!f]; if (r) { CHECK(r >= lo && r + z <= lo + 400000, "inside"); CHECK(r + z <= k || k + kn <= r, "never overlaps the live block"); r[0] = r[z - 1] = 0x77; CHECK(k[0] == !f + 1 && k[kn - 1] == !f + 5, "live block kept"); zpl_free(a, r); }
    zpl_free(a, k); CHECK(a.proc(a.data, ZPL_ALLOCATION_ALLOC, 131080, 16, 0, 0, 0) != 0, "served when everything is free"); free(mem); REACHED();
}
//@ x=h_ring q="RK=6,T=60;RK=5,T=60" t="RK=8,T=800,J=8;RK=7,T=300,J=8" what="longer histories of requests and releases in any order over buffers of several sizes, wrapping around exactly to the oldest block or beside it: live blocks stay apart and keep their contents"
#ifndef RK
#define RK 5
#endif
void h_ring(void) {
    static int const TS[3] = { 64, 80, 96 }, SZ[6] = { 8, 16, 24, 32, 40, 48 }; zpl_scratch_memory s; int total = TS[nd_pick(0, 2)]; zpl_scratch_memory_init(&s, buf + 16, total); zpl_allocator al = zpl_scratch_allocator(&s); unsigned char *live[RK]; int len[RK], n = 0; unsigned char tag[RK], nx = 1;
    for (int i = 0; i < RK; i++) {
        int op = nd_pick(0, 5 + n);
        if (op < 6) { int z = SZ[op]; unsigned char *q = (unsigned char *)zpl_alloc_align(al, z, 8); if (!q) { CHECK(n, "an empty buffer serves"); continue; } CHECK(q >= buf + 16 && q + z <= buf + 16 + total, "inside"); for (int j = 0; j < n; j++) CHECK(q + z <= live[j] || live[j] + len[j] <= q, "live blocks are disjoint"); for (int k = 0; k < z; k++) { CHECK(q[k] == 0, "zeroed"); q[k] = nx; } live[n] = q; len[n] = z; tag[n++] = nx++; }
        else { int w = op - 6; zpl_free(al, live[w]); n--; live[w] = live[n]; len[w] = len[n]; tag[w] = tag[n]; }
        for (int j = 0; j < n; j++) { for (int k = 0; k < len[j]; k++) CHECK(live[j][k] == tag[j], "contents survive other operations"); CHECK(zpl_scratch_memory_is_in_use(&s, live[j]), "in use"); } if (n) CHECK(!zpl_scratch_memory_is_in_use(&s, s.alloc_point), "the next place is not in use");
    }
    REACHED();
}
