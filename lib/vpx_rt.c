/* Native replay of a schedule: the bitcode the executor ran, instrumented with its scheduling points (vpx -instr), runs on coroutines that
 * follow the (scheduling point, thread) pairs of the counterexample. After the last pair threads that yield or wait take turns. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <ucontext.h>
#define VP_MAXT 16
typedef unsigned long long u64;
static struct { ucontext_t c; int done; void *(*fn)(void *); void *arg; void *stack; } T[VP_MAXT];
static int nt = 1, cur; static u64 yp, idle; static FILE *in; static long *sch; static long ns, is; static struct { char *p; u64 n; } sh[64]; static int nsh;
void VP_ENTRY(void);
static u64 nd(void) { u64 v = 0; if (!in || fscanf(in, "%llu", &v) != 1) v = 0; return v; }
unsigned char __vpx_nd8(void) { return nd(); } unsigned short __vpx_nd16(void) { return nd(); } unsigned __vpx_nd32(void) { return nd(); } u64 __vpx_nd64(void) { return nd(); }
void __vpx_assume(int c) { if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); fflush(0); _Exit(77); } }
void __vpx_check(int c, char const *m) { if (!c) { fprintf(stderr, "VP-CHECK-FAILED: %s (thread %d)\n", m, cur); fflush(0); _Exit(99); } }
void __vpx_reached(void) { fprintf(stderr, "VP-REACHED\n"); } void __vpx_print(char const *m, ...) {}
u64 __vpx_concrete(u64 v) { return v; } int __vpx_issym(u64 v) { return 0; } int __vpx_live(void) { return 0; }
static void sw(int t) { if (t == cur) return; int o = cur; cur = t; swapcontext(&T[o].c, &T[t].c); }
static void stuck(void) { fprintf(stderr, "VP-CHECK-FAILED: no thread makes progress\n"); fflush(0); _Exit(99); }
static int planned(void) { if (is + 1 < ns && (u64)sch[is] == yp) { int t = (int)sch[is + 1]; is += 2; if (t < 0 || t >= nt || T[t].done) { fprintf(stderr, "VP-SCHEDULE-MISMATCH\n"); _Exit(78); } sw(t); return 1; } return 0; }
static int turn(void) { for (int i = 1; i <= nt; i++) { int t = (cur + i) % nt; if (!T[t].done) { sw(t); return 1; } } return 0; }
static void point(int v) { if (nt < 2) return; yp++; if (planned()) { return; } if (v && is + 1 >= ns) { if (++idle > 200000) stuck(); turn(); } }
void __vp_point(int v) { point(v); }
void __vp_mem(char *p) { for (int i = 0; i < nsh; i++) if (p >= sh[i].p && p < sh[i].p + sh[i].n) { point(0); return; } }
void __vpx_shared(void *p, u64 n) { if (nsh < 64) { sh[nsh].p = p; sh[nsh++].n = n; } }
void __vpx_yield(int v) { point(v); }
void __vpx_block(void) { yp++; if (planned()) return; if (++idle > 200000) stuck(); turn(); }
int __vpx_tid(void) { return cur; } int __vpx_done(int t) { return t < nt && T[t].done; }
static void body(void) { T[cur].fn(T[cur].arg); T[cur].done = 1; yp++; if (!planned() && !turn()) stuck(); }
int __vpx_spawn(void *fn, void *arg) { if (nt >= VP_MAXT) _Exit(78); int t = nt++; T[t].fn = fn; T[t].arg = arg; T[t].stack = malloc(1 << 18); getcontext(&T[t].c); T[t].c.uc_stack.ss_sp = T[t].stack; T[t].c.uc_stack.ss_size = 1 << 18; T[t].c.uc_link = 0; makecontext(&T[t].c, body, 0); point(0); return t; }
int main(int n, char **a) {
    in = n > 1 ? fopen(a[1], "r") : 0; FILE *f = n > 2 ? fopen(a[2], "r") : 0; sch = malloc(sizeof(long) * 400000); if (f) while (ns < 400000 && fscanf(f, "%ld", &sch[ns]) == 1) ns++;
    VP_ENTRY(); fprintf(stderr, "VP-DONE\n"); return 0;
}
