// P02: arena allocator hands out disjoint, aligned, in-bounds blocks and snapshots restore
//@ file -DVP_BYTEMEM
#include "vp.h"
#define AL __attribute__((aligned(64)))
#ifndef B
#define B 96
#endif
#ifndef K
#define K 3
#endif
#ifndef SZ
#define SZ 40
#endif
static AL unsigned char buf[B + 64];
#define PROBE() do { vp_probe = buf + nd_in(0, B + 63); } while (0)
//@ h=h_seq repl="zpl_memset:vp_memset_model" q="K=3,B=96,SZ=40,U=6,T=160;K=2,B=64,SZ=24,U=6,T=100" t="K=5,B=128,SZ=60,U=8,T=1200;K=3,B=96,SZ=40,U=6,T=300" what="any sequence of sizes/alignments from any start address"
void h_seq(void) {
    zpl_arena a; int off = nd_in(0, 15), total = nd_in(0, B); PROBE();
    zpl_arena_init_from_memory(&a, buf + off, total);
    zpl_allocator al = zpl_arena_allocator(&a);
    int at[K], len[K]; int n = 0;
    *vp_probe = 0xCD; int po = vp_probe - buf;
    for (int i = 0; i < K; i++) {
        int sz = nd_in(1, SZ), lg = nd_in(0, 5); zpl_isize align = (zpl_isize)1 << lg;
        zpl_isize room = zpl_arena_size_remaining(&a, align);
        zpl_isize rounded = (sz + align - 1) & ~(align - 1);
        unsigned char *p = zpl_alloc_align(al, sz, align);
        if (!p) { CHECK(room < rounded, "a request that fits is served"); continue; }
        CHECK(room >= sz, "a request larger than the room left is refused");
        int o = (int)(p - buf);
        CHECK((o & (align - 1)) == 0, "block is aligned");
        CHECK(o >= off && o + sz <= off + total, "block lies inside the arena's memory");
        if (po >= o && po < o + sz) { CHECK(*vp_probe == 0, "block is zeroed"); *vp_probe = 0x5A; }
        else CHECK(*vp_probe == 0xCD || *vp_probe == 0x5A, "bytes outside the block keep their value");
        for (int j = 0; j < K; j++) if (j < n) CHECK(o + sz <= at[j] || at[j] + len[j] <= o, "blocks are disjoint");
        at[n] = o; len[n] = sz; n++;
    }
    CHECK(a.total_allocated >= 0 && a.total_allocated <= total, "accounting stays inside the arena");
    zpl_free_all(al);
    CHECK(a.total_allocated == 0, "free_all empties the arena");
    REACHED();
}
//@ h=h_snapshot repl="zpl_memset:vp_memset_model" q="U=3,T=120" what="snapshots nest and restore exactly; earlier blocks untouched"
void h_snapshot(void) {
    zpl_arena a; int off = nd_in(0, 15), total = nd_in(32, B); PROBE();
    zpl_arena_init_from_memory(&a, buf + off, total);
    zpl_allocator al = zpl_arena_allocator(&a);
    int s0 = nd_in(1, 16); unsigned char *p0 = zpl_alloc_align(al, s0, 1 << nd_in(0, 4));
    ASSUME(p0); int in0 = vp_probe >= p0 && vp_probe < p0 + s0; if (in0) *vp_probe = 0x77;
    zpl_isize before = a.total_allocated;
    zpl_arena_snapshot t1 = zpl_arena_snapshot_begin(&a);
    unsigned char *p1 = zpl_alloc_align(al, nd_in(1, 16), 8);
    zpl_isize mid = a.total_allocated;
    zpl_arena_snapshot t2 = zpl_arena_snapshot_begin(&a);
    unsigned char *p2 = zpl_alloc_align(al, nd_in(1, 16), 8);
    zpl_arena_snapshot_end(t2);
    CHECK(a.total_allocated == mid, "inner snapshot restored");
    zpl_arena_snapshot_end(t1);
    CHECK(a.total_allocated == before, "outer snapshot restored");
    zpl_arena_check(&a);
    unsigned char *p3 = zpl_alloc_align(al, 8, 8);
    if (p3) CHECK(p3 >= p0 + s0, "memory handed out after the snapshot does not reach into older blocks");
    if (p1 && p3) CHECK(p3 == p1, "snapshot memory is reused");
    if (in0) CHECK(*vp_probe == 0x77, "older block keeps its contents");
    REACHED();
}
//@ h=h_resize repl="zpl_memset:vp_memset_model,zpl_memmove:vp_memmove_model" q="U=3,T=120" what="resize keeps contents"
void h_resize(void) {
    zpl_arena a; int off = nd_in(0, 15), total = nd_in(32, B); int s0 = nd_in(1, 16), s1 = nd_in(1, 24), k = nd_in(0, 15); ASSUME(k < s0);
    zpl_isize align = (zpl_isize)1 << nd_in(0, 4); unsigned char v = nd_u8();
    zpl_arena_init_from_memory(&a, buf + off, total);
    zpl_allocator al = zpl_arena_allocator(&a);
    vp_probe = buf; unsigned char *p0 = zpl_alloc_align(al, s0, align); ASSUME(p0); p0[k] = v;
    vp_probe = buf + nd_in(0, B + 63);
    unsigned char *p1 = zpl_resize_align(al, p0, s0, s1, align);
    if (p1) {
        CHECK(((p1 - buf) & (align - 1)) == 0, "resized block is aligned");
        CHECK(p1 >= buf + off && p1 + s1 <= buf + off + total, "resized block lies inside the arena");
        if (k < s1 && (p1 == p0 || vp_probe == p1 + k)) CHECK(p1[k] == v, "resize keeps the common prefix");
        CHECK(p1 == p0 || p1 >= p0 + s0 || p1 + s1 <= p0, "resize moves to fresh memory or stays");
    } else CHECK(p0[k] == v, "failed resize leaves the block alone");
    REACHED();
}
//@ h=h_sub repl="zpl_memset:vp_memset_model" q="U=40,T=120" what="sub arena and arena from allocator; backing returned on free"
void h_sub(void) {
    zpl_arena a, c, d; int off = nd_in(0, 15); PROBE();
    zpl_arena_init_from_memory(&a, buf + off, 96);
    unsigned char *x = zpl_alloc_align(zpl_arena_allocator(&a), nd_in(1, 8), 1 << nd_in(0, 3));
    int ss = nd_in(1, 32);
    zpl_arena_init_sub(&c, &a, ss);
    unsigned char *y = zpl_alloc_align(zpl_arena_allocator(&a), 8, 8);
    int s = nd_in(1, 32); unsigned char *z = zpl_alloc_align(zpl_arena_allocator(&c), s, 1 << nd_in(0, 4));
    ASSUME(y);
    if (z) { CHECK(z + s <= y || z >= y + 8, "sub-arena blocks do not overlap parent's blocks"); CHECK(z >= buf + off && z + s <= buf + off + 96 , "sub-arena inside parent"); CHECK(z >= x + 1, "sub-arena after older block"); }
    vp_live = 0;
    zpl_arena_init_from_allocator(&d, vp_heap(), 32);
    unsigned char *w = zpl_alloc(zpl_arena_allocator(&d), 16);
    zpl_arena_free(&d);
    CHECK(vp_live == 0, "arena returns its backing memory");
    REACHED();
}
//@ x=h_wide q="NBLK=2,T=60" t="NBLK=3,T=400,J=8;NBLK=2,T=200" what="arenas and requests of any size up to a terabyte (memory is not touched): aligned, disjoint, inside, refused only without room"
#ifndef NBLK
#define NBLK 2
#endif
void h_wide(void) {
    zpl_arena a; unsigned long long base = 0x100000000000ull + 9 * nd_pick(0, 1), total = nd_u64(); ASSUME(total < (1ull << 40)); zpl_arena_init_from_memory(&a, (void *)base, (zpl_isize)total); CHECK(a.total_size == (zpl_isize)total && a.total_allocated == 0, "empty");
    zpl_allocator al = zpl_arena_allocator(&a); unsigned long long end = base, used = 0;
    for (int i = 0; i < NBLK; i++) {
        unsigned long long sz = nd_u64(); ASSUME(sz >= 1 && sz < (1ull << 40)); zpl_isize align = (zpl_isize)1 << 6 * nd_pick(0, 2); zpl_isize room = zpl_arena_size_remaining(&a, align); unsigned long long p = (unsigned long long)al.proc(al.data, ZPL_ALLOCATION_ALLOC, (zpl_isize)sz, align, 0, 0, 0);
        if (!p) { CHECK(room < 0 || (unsigned long long)room < sz + (unsigned long long)align, "refused only without room"); CHECK((unsigned long long)a.total_allocated == used, "a refusal takes nothing"); continue; }
        CHECK((p & (unsigned long long)(align - 1)) == 0, "aligned"); CHECK(p >= end && p + sz <= base + total, "inside, after the older blocks"); end = p + sz; CHECK((unsigned long long)a.total_allocated >= end - base && (unsigned long long)a.total_allocated <= total, "accounting"); used = (unsigned long long)a.total_allocated;
    }
    zpl_arena_snapshot s = zpl_arena_snapshot_begin(&a); al.proc(al.data, ZPL_ALLOCATION_ALLOC, 8, 8, 0, 0, 0); zpl_arena_snapshot_end(s); CHECK((unsigned long long)a.total_allocated == used && a.temp_count == 0, "a snapshot restores the exact level"); zpl_arena_check(&a);
    zpl_free_all(al); CHECK(a.total_allocated == 0, "emptied"); REACHED();
}
//@ x=h_hist q="HK=5,T=60" t="HK=7,T=600,J=8;HK=6,T=300" what="every history of requests, resizes, nested snapshots and emptying: levels and the count of open snapshots as they should be, memory of older blocks untouched, blocks zeroed after reuse"
#ifndef HK
#define HK 4
#endif
void h_hist(void) {
    unsigned char *mem = (unsigned char *)malloc(256); memset(mem, 0xEE, 256); zpl_arena a; int off = nd_pick(0, 1); zpl_arena_init_from_memory(&a, mem + off, 255 - off); zpl_allocator al = zpl_arena_allocator(&a);
    zpl_arena_snapshot sn[HK]; zpl_isize lv[HK]; int open = 0; unsigned char *bp[HK]; int bl[HK], bd[HK]; unsigned char bv[HK]; int n = 0;
    for (int s = 0; s < HK; s++) {
        int op = nd_pick(0, 4);
        if (op == 0) { static int const SZS[3] = { 1, 24, 100 }; int l = SZS[nd_pick(0, 2)]; zpl_isize room = zpl_arena_size_remaining(&a, 16), was = a.total_allocated; unsigned char *p = (unsigned char *)zpl_alloc_align(al, l, 16); CHECK(!!p == (room >= ((l + 15) & ~15)) || (p && room >= l), "served when it fits"); if (!p) { CHECK(a.total_allocated == was, "a refusal takes nothing"); continue; } CHECK(((zpl_uintptr)p & 15) == 0 && p >= mem + off && p + l <= mem + 255, "inside"); for (int i = 0; i < l; i++) CHECK(p[i] == 0, "zeroed"); bp[n] = p; bl[n] = l; bd[n] = open; bv[n] = nd_u8(); for (int i = 0; i < l; i++) p[i] = bv[n]; n++; }
        else if (op == 1) { if (open == HK) continue; lv[open] = a.total_allocated; sn[open] = zpl_arena_snapshot_begin(&a); open++; }
        else if (op == 2) { if (!open) continue; open--; zpl_arena_snapshot_end(sn[open]); CHECK(a.total_allocated == lv[open], "the level at the snapshot"); while (n && bd[n - 1] > open) n--; }
        else if (op == 3) { if (open && lv[open - 1]) continue; zpl_free_all(al); n = 0; CHECK(a.total_allocated == 0, "emptied"); }
        else { if (!n) continue; int l = nd_pick(0, 1) ? bl[n - 1] + 8 : bl[n - 1]; unsigned char *p = (unsigned char *)zpl_resize_align(al, bp[n - 1], bl[n - 1], l, 16); if (!p) continue; for (int i = 0; i < bl[n - 1]; i++) CHECK(p[i] == bv[n - 1], "resized contents"); for (int i = 0; i < l; i++) p[i] = bv[n - 1]; if (l != bl[n - 1]) { for (int j = 0; j + 1 < n; j++) CHECK(p >= bp[j] + bl[j] || p + l <= bp[j], "apart"); bp[n - 1] = p; bl[n - 1] = l; bd[n - 1] = open; } }
        CHECK(a.temp_count == open, "open snapshots"); for (int j = 0; j < n; j++) { CHECK(bp[j][0] == bv[j] && bp[j][bl[j] - 1] == bv[j], "contents"); for (int i = 0; i < j; i++) CHECK(bp[i] + bl[i] <= bp[j] || bp[j] + bl[j] <= bp[i], "disjoint"); }
    }
    while (open) { open--; zpl_arena_snapshot_end(sn[open]); CHECK(a.total_allocated == lv[open], "the level at the snapshot"); } zpl_arena_check(&a); zpl_arena_free(&a); free(mem);
    vp_live = 0; vp_fail_at = -1; zpl_arena b; zpl_arena_init_from_allocator(&b, vp_heap(), 64); CHECK(vp_live == 1 && b.total_size == 64, "memory of its own"); unsigned char *q = (unsigned char *)zpl_alloc_align(zpl_arena_allocator(&b), 32, 16); CHECK(q && q[31] == 0, "served"); zpl_arena_free(&b); CHECK(vp_live == 0, "its memory is returned"); REACHED();
}
