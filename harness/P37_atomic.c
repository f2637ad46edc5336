// P37: atomic operations and spin locks, under every schedule within the preemption bound
#include "vp.h"
#ifndef M
#define M 2
#endif
#define SHARE(x) __vpx_shared(&(x), sizeof(x))
// runs reset, then one(0..n-1) in threads of their own, then verify. On real threads (VP_STRESS) many times over.
#ifdef VP_X
#define ROUNDS 3
static void (*vp_one)(int); static int vp_up; static void vp_go(void *p) { vp_one((int)(long)p); }
static void threads(int n, void (*reset)(void), void (*one)(int), void (*verify)(void)) { vp_one = one; reset(); int id[3]; for (int i = 0; i < n; i++) id[i] = __vpx_spawn((void *)vp_go, (void *)(long)i); for (int i = 0; i < n; i++) while (!__vpx_done(id[i])) __vpx_block(); verify(); }
#else
#ifdef VP_STRESS
#include <pthread.h>
#define ROUNDS 300000
static struct { volatile int n; volatile unsigned gen; } B; static int nthr; static void (*S_reset)(void), (*S_one)(int), (*S_verify)(void);
static void bar(void) { unsigned g = B.gen; if (__sync_add_and_fetch(&B.n, 1) == nthr) { B.n = 0; __sync_synchronize(); B.gen++; } else { int k = 0; while (B.gen == g) if (++k > 2000) sched_yield(); } }
static void *st_main(void *p) { int k = (int)(long)p; for (int r = 0; r < ROUNDS; r++) { if (!k) S_reset(); bar(); S_one(k); bar(); if (!k) S_verify(); } return 0; }
static void threads(int n, void (*reset)(void), void (*one)(int), void (*verify)(void)) { nthr = n; S_reset = reset; S_one = one; S_verify = verify; pthread_t t[3]; for (int i = 0; i < n; i++) pthread_create(&t[i], 0, st_main, (void *)(long)i); for (int i = 0; i < n; i++) pthread_join(t[i], 0); }
#else
static void threads(int n, void (*reset)(void), void (*one)(int), void (*verify)(void)) { reset(); for (int i = 0; i < n; i++) one(i); verify(); }
#endif
#define __vpx_shared(p, n) ((void)0)
#define __vpx_yield(v) ((void)0)
#endif
enum { LOAD, STORE, CAS, XCHG, ADD, AND, OR, NOPS };
typedef struct { int op; zpl_u64 x, y; } Op;
static zpl_u64 msk(int t, zpl_u64 v) { return t == 0 ? (zpl_u32)v : v; }
// the operation as if alone: returns the previous value (what a load sees), and for a store nothing
static zpl_u64 ref(int t, zpl_u64 *m, Op o) {
    zpl_u64 old = *m, n = old; switch (o.op) { case LOAD: break; case STORE: n = o.x; break; case CAS: if (old == msk(t, o.x)) n = o.y; break; case XCHG: n = o.x; break; case ADD: n = old + o.x; break; case AND: n = old & o.x; break; case OR: n = old | o.x; break; }
    *m = msk(t, n); return o.op == STORE ? 0 : old;
}
static zpl_atomic32 A32; static zpl_atomic64 A64; static zpl_atomic_ptr AP;
static zpl_u64 act(int t, Op o) {
    if (t == 0) switch (o.op) { case LOAD: return (zpl_u32)zpl_atomic32_load(&A32); case STORE: zpl_atomic32_store(&A32, (zpl_i32)o.x); return 0; case CAS: return (zpl_u32)zpl_atomic32_compare_exchange(&A32, (zpl_i32)o.x, (zpl_i32)o.y); case XCHG: return (zpl_u32)zpl_atomic32_exchange(&A32, (zpl_i32)o.x); case ADD: return (zpl_u32)zpl_atomic32_fetch_add(&A32, (zpl_i32)o.x); case AND: return (zpl_u32)zpl_atomic32_fetch_and(&A32, (zpl_i32)o.x); default: return (zpl_u32)zpl_atomic32_fetch_or(&A32, (zpl_i32)o.x); }
    if (t == 1) switch (o.op) { case LOAD: return (zpl_u64)zpl_atomic64_load(&A64); case STORE: zpl_atomic64_store(&A64, (zpl_i64)o.x); return 0; case CAS: return (zpl_u64)zpl_atomic64_compare_exchange(&A64, (zpl_i64)o.x, (zpl_i64)o.y); case XCHG: return (zpl_u64)zpl_atomic64_exchange(&A64, (zpl_i64)o.x); case ADD: return (zpl_u64)zpl_atomic64_fetch_add(&A64, (zpl_i64)o.x); case AND: return (zpl_u64)zpl_atomic64_fetch_and(&A64, (zpl_i64)o.x); default: return (zpl_u64)zpl_atomic64_fetch_or(&A64, (zpl_i64)o.x); }
#define PV(v) ((void *)(zpl_uintptr)(v))
    switch (o.op) { case LOAD: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_load(&AP); case STORE: zpl_atomic_ptr_store(&AP, PV(o.x)); return 0; case CAS: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_compare_exchange(&AP, PV(o.x), PV(o.y)); case XCHG: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_exchange(&AP, PV(o.x)); case ADD: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_fetch_add(&AP, PV(o.x)); case AND: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_fetch_and(&AP, PV(o.x)); default: return (zpl_u64)(zpl_uintptr)zpl_atomic_ptr_fetch_or(&AP, PV(o.x)); }
}
static zpl_u64 peek(int t) { return t == 0 ? *(zpl_u32 *)&A32 : t == 1 ? *(zpl_u64 *)&A64 : *(zpl_u64 *)&AP; }
static void poke(int t, zpl_u64 v) { if (t == 0) *(zpl_u32 *)&A32 = (zpl_u32)v; else if (t == 1) *(zpl_u64 *)&A64 = v; else *(zpl_u64 *)&AP = v; }
static Op draw(void) { Op o; o.op = nd_pick(0, NOPS - 1); o.x = nd_u64(); o.y = nd_u64(); return o; }
static int ty; static zpl_u64 init; static Op op[3][4]; static zpl_u64 res[3][4]; static int nthreads, nops;
//@ x=h_seq q="T=60,J=2" t="T=200,J=4" what="load, store, compare-exchange, exchange, add, and, or on 32-bit, 64-bit and pointer atomics return the previous value and leave the new one, for every operand"
void h_seq(void) {
    ty = nd_pick(0, 2); init = nd_u64(); poke(ty, init); zpl_u64 m = msk(ty, init);
    for (int i = 0; i < 2; i++) { Op o = draw(); zpl_u64 r = act(ty, o), e = ref(ty, &m, o); CHECK(r == e, "previous value"); CHECK(peek(ty) == m, "new value"); } REACHED();
}
static void p_reset(void) { poke(ty, init); }
static void p_one(int k) { for (int j = 0; j < nops; j++) res[k][j] = act(ty, op[k][j]); }
// some order of all the operations, keeping each thread's own order, explains the results and the final value
static void p_verify(void) {
    zpl_u64 fin = peek(ty); int any = 0, tot = nthreads * nops, pos[3] = {0};
    int seq[8], n = 1; for (int i = 0; i < tot; i++) n *= nthreads;
    for (int c = 0; c < n; c++) { int q = c; pos[0] = pos[1] = pos[2] = 0; int ok = 1; for (int i = 0; i < tot; i++) { seq[i] = q % nthreads; q /= nthreads; if (++pos[seq[i]] > nops) ok = 0; } if (!ok) continue;
        zpl_u64 m = msk(ty, init); int good = 1; pos[0] = pos[1] = pos[2] = 0; for (int i = 0; i < tot; i++) { int k = seq[i]; zpl_u64 e = ref(ty, &m, op[k][pos[k]]); good &= e == res[k][pos[k]]; pos[k]++; } any |= good & (m == fin); }
    CHECK(any, "as if one at a time");
}
static void lin(int nt, int no) { ty = nd_pick(0, 2); init = nd_u64(); nthreads = nt; nops = no; for (int k = 0; k < nt; k++) for (int j = 0; j < no; j++) op[k][j] = draw(); threads(nt, p_reset, p_one, p_verify); REACHED(); }
//@ x=h_pair q="T=100,J=4,PB=1000" t="T=400,J=8,PB=1000" threads=1 stress=1 what="two operations by two threads, every pair of operations and every operand, take effect as if one at a time"
void h_pair(void) { lin(2, 1); }
//@ x=h_triple tier=thorough t="T=800,J=8,PB=2" threads=1 stress=1 what="three threads, one operation each"
void h_triple(void) { lin(3, 1); }
// spin locks
static int in_, over, cnt, got[3]; static zpl_isize tmo[3];
static zpl_b32 lk(int k) { zpl_isize t = tmo[k]; if (t == -2) return ty == 0 ? zpl_atomic32_try_acquire_lock(&A32) : ty == 1 ? zpl_atomic64_try_acquire_lock(&A64) : zpl_atomic_ptr_try_acquire_lock(&AP); return ty == 0 ? zpl_atomic32_spin_lock(&A32, t) : ty == 1 ? zpl_atomic64_spin_lock(&A64, t) : zpl_atomic_ptr_spin_lock(&AP, t); }
static void ul(void) { if (ty == 0) zpl_atomic32_spin_unlock(&A32); else if (ty == 1) zpl_atomic64_spin_unlock(&A64); else zpl_atomic_ptr_spin_unlock(&AP); }
static void l_reset(void) { poke(ty, 0); *(volatile int *)&in_ = 0; over = cnt = 0; got[0] = got[1] = got[2] = 0; }
static void l_one(int k) { for (int j = 0; j < nops; j++) if (lk(k)) { got[k]++; CHECK(peek(ty) != 0, "held by the one inside"); if ((*(volatile int *)&in_)++) *(volatile int *)&over = 1; __vpx_yield(0); int c = *(volatile int *)&cnt; __vpx_yield(0); *(volatile int *)&cnt = c + 1; (*(volatile int *)&in_)--; ul(); } else CHECK(tmo[k] != -1, "waiting without limit gets the lock"); }
static void l_verify(void) { int w = 0; for (int k = 0; k < nthreads; k++) { if (tmo[k] == -1) CHECK(got[k] == nops, "waiting without limit gets the lock"); w += got[k]; } CHECK(!over, "one holder at a time"); CHECK(cnt == w, "no increment lost"); CHECK(w >= 1, "somebody gets a free lock"); CHECK(peek(ty) == 0, "free at the end"); zpl_b32 f = lk(0); CHECK(f, "a free lock can be taken"); zpl_isize o = tmo[1]; tmo[1] = -2; CHECK(!lk(1), "a held one cannot"); tmo[1] = 1; CHECK(!lk(1), "nor within a time limit"); tmo[1] = o; ul(); }
static void locks(int n, int no) { ty = nd_pick(0, 2); nthreads = n; nops = no; for (int k = 0; k < n; k++) { int c = nd_pick(0, 3); tmo[k] = c == 0 ? -1 : c == 1 ? -2 : c == 2 ? 0 : 2; } threads(n, l_reset, l_one, l_verify); REACHED(); }
//@ x=h_lock q="T=60,J=3,PB=1000" t="T=300,J=6,PB=1000" threads=1 stress=1 opts="-spin 1" what="two threads contend for a spin lock, waiting without limit, with a limit, or trying once: never two holders, no unlock lost, a free lock is always taken"
void h_lock(void) { locks(2, 1); }
//@ x=h_lock2 q="T=60,J=5,PB=1000;T=40,J=5,PB=1000" t="T=600,J=6,PB=1000" threads=1 stress=1 what="two threads take and release the lock twice each"
void h_lock2(void) { locks(2, M); }
//@ x=h_lock3 q="T=60,J=4,PB=2" t="T=600,J=6,PB=4" threads=1 stress=1 what="three threads contend"
void h_lock3(void) { locks(3, 1); }
