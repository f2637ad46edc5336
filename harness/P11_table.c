// P11: hash table against a map model
#include "vp.h"
#ifndef K
#define K 4
#endif
#ifndef KH
#define KH 1
#endif
ZPL_TABLE(static, tb, tb_, zpl_u64);
static zpl_u64 mk[16], mv[16]; static int n; static int seen[16], calls;
static int at(zpl_u64 k) { for (int i = 0; i < n; i++) if (mk[i] == k) return i; return -1; }
static void visit(zpl_u64 key, zpl_u64 value) { calls++; int i = at(key); CHECK(i >= 0 && mv[i] == value, "iteration yields live entries with their values"); if (i >= 0) seen[i]++; }
static void bump(zpl_u64 key, zpl_u64 *value) { *value ^= 0x5555; }
/* keys: any low byte, high bits all zero or all one or a single pattern */
static zpl_u64 nd_key(void) { static zpl_u64 const hi[3] = { 0, 0xFFFFFFFFFFFFFF00ull, 0x8000000100000000ull }; return hi[nd_pick(0, KH)] | nd_u8(); }
static void same(tb *h) {
    CHECK(zpl_array_count(h->entries) == n, "as many entries as live keys");
    for (int i = 0; i < n; i++) { zpl_u64 *p = tb_get(h, mk[i]); CHECK(p && *p == mv[i], "every live key returns its last value"); CHECK(tb_slot(h, mk[i]) >= 0 && h->entries[tb_slot(h, mk[i])].key == mk[i], "slot"); }
}
//@ x=h_ops q="K=3,T=100" t="K=5,T=2400,J=8;K=4,T=600,J=8" what="any set/update/remove/get/rehash/clear sequence over keys of any low byte under two high patterns equals the map model"
void h_ops(void) {
    vp_live = 0; n = 0; tb h; tb_init(&h, vp_heap());
    for (int s = 0; s < K; s++) {
        int op = nd_pick(0, 5);
        if (op <= 1) { zpl_u64 k = 0, v = nd_u64(); if (op == 0) k = nd_key(); else ASSUME(n > 0); if (op == 1 && n > 0) k = mk[nd_in(0, n - 1)]; tb_set(&h, k, v); int i = at(k); if (i < 0) { i = n++; mk[i] = k; } mv[i] = v; }
        else if (op == 2) { ASSUME(n > 0); int i = nd_pick(0, n - 1); tb_remove(&h, mk[i]); zpl_u64 dead = mk[i]; for (; i + 1 < n; i++) { mk[i] = mk[i + 1]; mv[i] = mv[i + 1]; } n--; CHECK(!tb_get(&h, dead) && tb_slot(&h, dead) < 0, "a removed key is gone"); }
        else if (op == 3) { zpl_u64 k = nd_key(); ASSUME(at(k) < 0); if (zpl_array_count(h.hashes)) { CHECK(!tb_get(&h, k), "an absent key returns nothing"); tb_remove(&h, k); } CHECK(tb_slot(&h, k) < 0, "an absent key has no slot"); }
        else if (op == 4) { int c = nd_pick(1, 5); if (nd_bool()) tb_rehash(&h, c); else tb_grow(&h); }
        else { if (nd_bool()) { tb_clear(&h); n = 0; } else { for (int i = 0; i < n; i++) mv[i] ^= 0x5555; tb_map_mut(&h, bump); } }
        same(&h);
    }
    for (int i = 0; i < n; i++) seen[i] = 0; calls = 0; tb_map(&h, visit); CHECK(calls == n, "every live entry is visited"); for (int i = 0; i < n; i++) CHECK(seen[i] == 1, "visited once");
    tb_destroy(&h); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_dense q="T=100" t="NK=16,T=900,J=8;T=300" what="many keys drawn from a small colliding set with removals in between, across several growths"
#ifndef NK
#define NK 14
#endif
void h_dense(void) {
    vp_live = 0; tb h; tb_init(&h, vp_heap()); zpl_u64 v[NK]; int rem = nd_pick(0, NK - 1); zpl_u64 stride = nd_pick(1, 9), base = nd_pick(0, 3) * 13;
    for (int i = 0; i < NK; i++) { v[i] = nd_u64(); tb_set(&h, base + stride * i, v[i]); }
    for (int i = 0; i < NK; i++) { zpl_u64 *p = tb_get(&h, base + stride * i); CHECK(p && *p == v[i], "all keys present after growth"); }
    tb_remove(&h, base + stride * rem);
    for (int i = 0; i < NK; i++) { zpl_u64 *p = tb_get(&h, base + stride * i); if (i == rem) CHECK(!p, "removed key gone"); else CHECK(p && *p == v[i], "other keys kept"); }
    zpl_u64 x = nd_u64(); tb_set(&h, base + stride * rem, x); zpl_u64 *p = tb_get(&h, base + stride * rem); CHECK(p && *p == x, "re-inserted");
    tb_destroy(&h); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_many q="NM=400,T=60" t="NM=3000,T=400" what="hundreds of keys of any stride: present after every growth, one removed key gone, iteration sees each once"
#ifndef NM
#define NM 400
#endif
static int hits_[NM]; static zpl_u64 str_, bas_; static void count_(zpl_u64 k, zpl_u64 v) { zpl_u64 i = (k - bas_) / str_; CHECK(i < NM && k == bas_ + i * str_ && v == (i ^ 0x33), "a live entry"); hits_[i]++; }
void h_many(void) {
    static zpl_u64 const st[4] = { 1, 64, 4096, 0x100000001ull }; vp_live = 0; tb h; tb_init(&h, vp_heap()); str_ = st[nd_pick(0, 3)]; bas_ = nd_pick(0, 1) ? 0 : 0xFFFF0000ull; int rem = nd_pick(0, 3) * (NM / 4); for (int i = 0; i < NM; i++) { hits_[i] = 0; tb_set(&h, bas_ + str_ * i, i ^ 0x33); if (i == 60 || i == 300) for (int j = 0; j <= i; j++) { zpl_u64 *p = tb_get(&h, bas_ + str_ * j); CHECK(p && *p == (zpl_u64)(j ^ 0x33), "present"); } }
    CHECK(zpl_array_count(h.entries) == NM, "as many entries as keys"); tb_remove(&h, bas_ + str_ * rem); for (int i = 0; i < NM; i++) { zpl_u64 *p = tb_get(&h, bas_ + str_ * i); if (i == rem) CHECK(!p, "removed"); else CHECK(p && *p == (zpl_u64)(i ^ 0x33), "kept"); } tb_map(&h, count_); for (int i = 0; i < NM; i++) CHECK(hits_[i] == (i != rem), "visited once"); tb_clear(&h); CHECK(!tb_get(&h, bas_), "cleared"); tb_destroy(&h); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_fail q="T=60" what="setting keys with the k-th allocation and all later ones refused: keys set before keep their values, a refused key is absent, nothing leaks"
void h_fail(void) {
    vp_live = 0; n = 0; vp_fail_at = -1; vp_allocs = 0; tb h; tb_init(&h, vp_heap()); zpl_u64 k0 = nd_u8(), st = nd_pick(0, 1) ? 8 : 1; int c = nd_pick(1, 14); vp_allocs = 0; vp_fail_at = nd_pick(0, 8);
    for (int i = 0; i < c; i++) { zpl_u64 k = k0 + (zpl_u64)i * st, v = nd_u64(); tb_set(&h, k, v); zpl_u64 *p = zpl_array_count(h.hashes) ? tb_get(&h, k) : NULL; if (p) { mk[n] = k; mv[n] = v; n++; } }
    CHECK(zpl_array_count(h.entries) == n, "as many entries as live keys"); for (int i = 0; i < n; i++) { zpl_u64 *p = tb_get(&h, mk[i]); CHECK(p && *p == mv[i], "every key that was stored returns its value"); }
    vp_fail_at = -1; tb_destroy(&h); CHECK(vp_live == 0, "no leak"); REACHED();
}
