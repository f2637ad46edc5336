// P39: the job queue, under every schedule within the preemption bound
#include "vp_threads.h"
#include "vp.h"
#ifndef W
#define W 1
#endif
#ifndef J
#define J 2
#endif
#ifndef NJ
#define NJ 2
#endif
#ifndef LIM
#define LIM 2
#endif
static zpl_jobs_system P; static struct { int ran, done, prio; zpl_u32 pay, got; } D[8]; static int order[8], norder;
static void proc(void *p) { int k = (int)((char *)p - (char *)D) / (int)sizeof(D[0]); CHECK(p == &D[k] && k >= 0 && k < 8, "a job gets the data it was given"); D[k].ran++; __vpx_yield(0); D[k].got = D[k].pay; order[norder++] = k; D[k].done++; }
static void start(void) { zpl_jobs_init_with_limit(&P, vp_heap(), W, LIM); __vpx_shared(P.workers, W * sizeof(*P.workers)); CHECK(zpl_jobs_done(&P) && zpl_jobs_empty_all(&P), "nothing to do at first"); CHECK(!zpl_jobs_process(&P), "nothing to process"); }
static void put(int a, int b) { for (int k = a; k < b; k++) { D[k].pay = nd_u32(); D[k].prio = nd_pick(0, ZPL_JOBS_MAX_PRIORITIES - 1); zpl_b32 r = D[k].prio == ZPL_JOBS_PRIORITY_NORMAL ? zpl_jobs_enqueue(&P, proc, &D[k]) : zpl_jobs_enqueue_with_priority(&P, proc, &D[k], (zpl_jobs_priority)D[k].prio); CHECK(r, "accepted"); CHECK(!zpl_jobs_empty(&P, (zpl_jobs_priority)D[k].prio) && !zpl_jobs_done(&P), "work to do"); } }
static void drain(int n) { while (!zpl_jobs_done(&P)) { zpl_jobs_process(&P); __vpx_yield(1); } for (int k = 0; k < n; k++) { CHECK(D[k].ran == 1 && D[k].done == 1, "every accepted job ran exactly once, and is over when the pool is done"); CHECK(D[k].got == D[k].pay, "with its own data"); }
    CHECK(zpl_jobs_empty_all(&P), "nothing left"); if (W == 1) for (int i = 0; i < norder; i++) for (int j = i + 1; j < norder; j++) if (D[order[i]].prio == D[order[j]].prio) CHECK(order[i] < order[j], "jobs of one priority run in order"); }
static void finish(void) { zpl_jobs_free(&P); for (int k = 0; k < vp_threads; k++) CHECK(vp_th[k].joined, "workers joined"); CHECK(vp_threads == W && vp_sems == 0, "everything released"); CHECK(vp_live == 0, "no memory left"); }
//@ x=h_run q="T=60,J=4,PB=1000,W=1,NJ=2" t="T=600,J=6,PB=1000,W=1,NJ=3,LIM=3" threads=1 what="one worker: every accepted job of any priorities runs exactly once with its own data before the pool says done; a second batch works too; shutting down joins the worker"
void h_run(void) { start(); put(0, NJ); drain(NJ); norder = 0; put(NJ, NJ + 1); drain(NJ + 1); finish(); REACHED(); }
//@ x=h_run2 q="T=60,J=4,PB=2,W=2,NJ=2;T=40,J=4,PB=1,W=2,NJ=2" t="T=800,J=6,PB=4,W=2,NJ=2;T=300,J=6,PB=3,W=2,NJ=2" threads=1 what="two workers"
void h_run2(void) { start(); put(0, NJ); drain(NJ); finish(); REACHED(); }
//@ x=h_stop q="T=60,J=4,PB=1000,W=1,NJ=2" t="T=400,J=6,PB=3,W=2,NJ=2;T=300,J=6,PB=2,W=2,NJ=2" threads=1 what="shutting down at any moment after jobs were handed out: never hangs, no job runs twice or half, nothing leaks"
void h_stop(void) { start(); put(0, NJ); int n = nd_pick(0, 3); for (int i = 0; i < n; i++) { zpl_jobs_process(&P); __vpx_yield(0); } finish(); for (int k = 0; k < NJ; k++) CHECK(D[k].ran <= 1 && D[k].done == D[k].ran, "no job ran twice or half"); REACHED(); }
//@ x=h_first q="T=60,J=3,PB=2,W=1,NJ=3,LIM=3" t="T=300,J=4,PB=4,W=1,NJ=3,LIM=3" threads=1 what="of the jobs waiting in a fresh pool the one of the highest priority, and of several the oldest, is handed out first"
void h_first(void) { start(); put(0, NJ); zpl_jobs_process(&P); int w = 0; for (int k = 1; k < NJ; k++) if (D[k].prio < D[w].prio) w = k; while (P.workers[0].status.value != ZPL_JOBS_STATUS_WAITING) __vpx_yield(1); CHECK(norder == 1 && order[0] == w, "highest priority first"); drain(NJ); finish(); REACHED(); }
//@ x=h_full q="T=60,J=3,W=0,LIM=1;T=60,J=3,W=0,LIM=2" t="T=100,J=3,W=0,LIM=3" threads=1 what="a queue takes as many jobs as its limit, then refuses without disturbing the queued ones; the other priorities are unaffected"
void h_full(void) {
    zpl_jobs_init_with_limit(&P, vp_heap(), 0, LIM); int n[ZPL_JOBS_MAX_PRIORITIES] = {0}, all; for (int i = 0; i < LIM + 2; i++) { int p = nd_pick(0, ZPL_JOBS_MAX_PRIORITIES - 1); CHECK(zpl_jobs_full(&P, (zpl_jobs_priority)p) == (n[p] >= LIM), "full when the limit is reached"); zpl_b32 r = zpl_jobs_enqueue_with_priority(&P, proc, &D[0], (zpl_jobs_priority)p); CHECK(!!r == (n[p] < LIM), "refused exactly when full"); if (r) n[p]++; all = 1; for (int q = 0; q < ZPL_JOBS_MAX_PRIORITIES; q++) { CHECK(zpl_jobs_empty(&P, (zpl_jobs_priority)q) == (n[q] == 0), "empty"); all &= n[q] >= LIM; } CHECK(zpl_jobs_full_all(&P) == all, "all full"); CHECK(zpl_jobs_empty_all(&P) == 0 || !r, "not empty"); }
    zpl_jobs_free(&P); CHECK(vp_live == 0, "no memory left"); REACHED();
}
//@ x=h_deflt q="T=60,J=3,PB=2,W=1,NJ=2" t="T=200,J=4,PB=6,W=1,NJ=3" threads=1 what="a pool made with the default limit works the same and takes that many jobs"
void h_deflt(void) {
    zpl_jobs_init(&P, vp_heap(), W); __vpx_shared(P.workers, W * sizeof(*P.workers)); CHECK(P.max_jobs == ZPL_JOBS_MAX_QUEUE && P.max_threads == W, "limits"); CHECK(zpl_jobs_done(&P) && zpl_jobs_empty_all(&P), "nothing to do at first"); put(0, NJ); drain(NJ);
    int pr = nd_pick(0, ZPL_JOBS_MAX_PRIORITIES - 1); for (int k = 0; k < ZPL_JOBS_MAX_QUEUE; k++) { CHECK(!zpl_jobs_full(&P, (zpl_jobs_priority)pr), "room"); CHECK(zpl_jobs_enqueue_with_priority(&P, proc, &D[0], (zpl_jobs_priority)pr), "accepted"); } CHECK(zpl_jobs_full(&P, (zpl_jobs_priority)pr) && !zpl_jobs_enqueue_with_priority(&P, proc, &D[0], (zpl_jobs_priority)pr), "full at the limit"); finish(); REACHED();
}
