// P03: pool allocator
//@ file -DVP_BYTEMEM -DVP_MEMSET_T=zpl_pool
#include "vp.h"
#ifndef K
#define K 6
#endif
#ifndef NB
#define NB 3
#endif
/* backing allocator: one static buffer, at an address that is only as aligned as requested */
static __attribute__((aligned(64))) unsigned char store[256]; static zpl_isize store_n, store_off;
static void *store_proc(void *d, zpl_alloc_type t, zpl_isize size, zpl_isize align, void *old, zpl_isize os, zpl_u64 f) {
    if (t == ZPL_ALLOCATION_ALLOC) { CHECK(size + align <= 256, "pool backing request"); store_off = align; store_n = size; return store + align; }
    return 0;
}
#ifndef BS0
#define BS0 1
#define BS1 20
#endif
#ifndef LG1
#define LG1 4
#endif
//@ x=h_seq q="K=4,NB=2,T=90;K=3,NB=2,T=60" t="K=5,NB=3,T=900,J=8;K=5,NB=2,T=600,J=8" what="any interleaving of alloc/free/free_all for any block size and alignment"
void h_seq(void) {
    zpl_pool p; zpl_allocator back = { store_proc, 0 };
    int bs = nd_in(BS0, BS1), lg = nd_in(0, LG1), nb = nd_in(1, NB); zpl_isize ba = (zpl_isize)1 << lg;
    unsigned char *base = (unsigned char *)store;
    vp_probe = base + nd_in(0, 255);
    zpl_pool_init_align(&p, back, nb, bs, ba);
    CHECK(p.num_blocks == nb && p.block_size == bs && p.block_align == ba && p.total_size == 0, "pool reports its shape");
    zpl_allocator al = zpl_pool_allocator(&p);
    int live[NB]; for (int i = 0; i < NB; i++) live[i] = -1;
    int n = 0; unsigned char tag = 0; int owner = -1;
    for (int i = 0; i < K; i++) {
        int op = nd_in(0, 2), w = nd_in(0, NB - 1); ASSUME(w < nb);
        if (op == 0) {
            if (n == nb) { CHECK(p.free_list == NULL, "an exhausted pool has no free block"); continue; }
            CHECK(p.free_list != NULL, "a pool with a free block offers it");
            ASSUME(live[w] < 0);
            unsigned char *q = zpl_alloc_align(al, bs, ba);
            CHECK(q != NULL, "allocation served");
            int o = (int)(q - base);
            CHECK((o & (ba - 1)) == 0, "block is aligned");
            CHECK(o >= store_off && o + bs <= store_off + store_n, "block inside backing memory");
            for (int j = 0; j < NB; j++) if (live[j] >= 0) CHECK(o + bs <= live[j] || live[j] + bs <= o, "blocks are disjoint");
            live[w] = o;
            if (vp_probe >= q && vp_probe < q + bs) { CHECK(*vp_probe == 0, "block is zeroed"); tag = nd_u8(); *vp_probe = tag; owner = w; }
            n++;
        } else if (op == 1) {
            ASSUME(live[w] >= 0);
            zpl_free(al, base + live[w]); live[w] = -1; if (owner == w) owner = -1; n--;
        } else { zpl_free_all(al); for (int j = 0; j < NB; j++) live[j] = -1; n = 0; owner = -1; }
        CHECK(p.total_size == (zpl_isize)n * bs, "accounting equals live blocks");
        if (owner >= 0) CHECK(*vp_probe == tag, "contents of a live block survive other operations");
    }
    REACHED();
}
//@ x=h_backing q="T=60" what="exact-size backing block: no out of bounds, returned on free"
static void backing(int NB_, int BS_) {
    zpl_pool p; vp_live = 0; int nb = NB_, bs = BS_;
    zpl_pool_init(&p, vp_heap(), nb, bs);
    unsigned char *q = zpl_alloc(zpl_pool_allocator(&p), bs); q[bs - 1] = 1;
    if (nb == 2) { q = zpl_alloc(zpl_pool_allocator(&p), bs); q[bs - 1] = 1; }
    zpl_free(zpl_pool_allocator(&p), q);
    zpl_free_all(zpl_pool_allocator(&p));
    zpl_pool_free(&p);
    CHECK(vp_live == 0, "backing returned");
    }
void h_backing(void) { backing(1, 1); backing(2, 3); backing(2, 12); backing(2, 16); backing(1, 40); REACHED(); }
//@ x=h_many q="T=60" what="pools of several hundred blocks and of blocks of more than 64 KiB: all blocks distinct, aligned and inside, every freed block comes back"
static void *one_(void *d, zpl_alloc_type t, zpl_isize size, zpl_isize align, void *old, zpl_isize os, zpl_u64 f) { if (t == ZPL_ALLOCATION_ALLOC) { CHECK(*(void **)d == 0, "one request"); store_n = size; return *(void **)d = aligned_alloc((size_t)align, (size_t)((size + align - 1) & ~(align - 1))); } if (t == ZPL_ALLOCATION_FREE) { CHECK(old == *(void **)d, "the same block"); free(old); *(void **)d = 0; } return 0; }
void h_many(void) {
    static int const shape[4][3] = { { 300, 24, 16 }, { 257, 8, 8 }, { 3, 70000, 16 }, { 2, 65536, 4096 } }; int const *w = shape[nd_pick(0, 3)]; int nb = w[0], bs = w[1], al = w[2]; void *mem = 0; zpl_allocator back = { one_, &mem }; zpl_pool p; zpl_pool_init_align(&p, back, nb, bs, al); CHECK(p.num_blocks == nb && p.block_size == bs && p.block_align == al, "shape"); zpl_allocator a = zpl_pool_allocator(&p); static unsigned char *q[300];
    for (int i = 0; i < nb; i++) { q[i] = (unsigned char *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, bs, al, 0, 0, 0); CHECK(q[i], "served"); CHECK(((zpl_uintptr)q[i] & (al - 1)) == 0, "aligned"); CHECK(q[i] >= (unsigned char *)mem && q[i] + bs <= (unsigned char *)mem + store_n, "inside"); q[i][0] = (unsigned char)i; q[i][bs - 1] = (unsigned char)(i >> 8); CHECK(p.total_size == (zpl_isize)(i + 1) * bs, "accounting"); }
    CHECK(!p.free_list, "all blocks handed out"); for (int i = 0; i < nb; i++) CHECK(q[i][0] == (unsigned char)i && q[i][bs - 1] == (unsigned char)(i >> 8), "blocks are disjoint");
    int x = nd_pick(0, nb > 3 ? 3 : nb - 1) * (nb > 3 ? 85 : 1); zpl_free(a, q[x]); CHECK(a.proc(a.data, ZPL_ALLOCATION_ALLOC, bs, al, 0, 0, 0) == q[x], "the freed block comes back"); zpl_free_all(a); CHECK(p.total_size == 0, "empty"); for (int i = 0; i < nb; i++) { unsigned char *z = (unsigned char *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, bs, al, 0, 0, 0); CHECK(z, "all served again"); } CHECK(!p.free_list, "and no more"); zpl_pool_free(&p); CHECK(!mem, "memory returned"); REACHED();
}
//@ x=h_fail q="T=60" what="a pool whose memory could not be allocated offers no block and can be freed"
void h_fail(void) { zpl_pool p; vp_live = 0; vp_allocs = 0; vp_fail_at = 0; zpl_pool_init(&p, vp_heap(), nd_pick(1, 3), nd_pick(1, 20)); vp_fail_at = -1; CHECK(p.free_list == NULL && p.total_size == 0, "no block"); zpl_pool_free(&p); CHECK(vp_live == 0, "nothing kept"); REACHED(); }
