/* POSIX threads, mutexes and semaphores on the executor's threads (and on coroutines in the native replay). Include before vp.h.
 * Misuse that POSIX leaves undefined is a violation: use before initialisation, unlocking an unlocked mutex, joining what was not started or twice,
 * destroying what is in use. (Unlocking by another thread than the locker is let pass: zpl_sync hands a mutex over between threads.) */
#ifndef VP_THREADS_H
#define VP_THREADS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
void __vpx_check(int c, char const *msg); int __vpx_spawn(void *fn, void *arg); void __vpx_yield(int voluntary); void __vpx_block(void); int __vpx_tid(void); int __vpx_done(int t); void __vpx_shared(void *p, unsigned long long n); unsigned char __vpx_nd8(void);
#define VP_TC(c, m) __vpx_check(!!(c), "VP " m)
static int vp_eintr, vp_createfail, vp_threads, vp_attrs, vp_mxs, vp_sems; static struct { int used, joined, tid; void *ret; void *(*fn)(void *); void *arg; } vp_th[16];
static int vp_flip(void) { unsigned char v = __vpx_nd8(); return v & 1; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int *p = (int *)m; p[0] = 0; p[1] = 0x4d555458; vp_mxs++; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { int *p = (int *)m; VP_TC(p[1] == 0x4d555458, "mutex was initialised"); VP_TC(!p[0], "mutex destroyed while locked"); p[1] = 0; vp_mxs--; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { int *p = (int *)m; __vpx_yield(0); VP_TC(p[1] == 0x4d555458, "mutex was initialised"); while (p[0]) __vpx_block(); p[0] = __vpx_tid() + 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { int *p = (int *)m; __vpx_yield(0); VP_TC(p[1] == 0x4d555458, "mutex was initialised"); if (p[0]) return EBUSY; p[0] = __vpx_tid() + 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { int *p = (int *)m; VP_TC(p[1] == 0x4d555458, "mutex was initialised"); VP_TC(p[0], "mutex unlocked while not locked"); p[0] = 0; __vpx_yield(0); return 0; }
int sem_init(sem_t *s, int sh, unsigned v) { int *p = (int *)s; p[0] = (int)v; p[1] = 0x53454d41; p[2] = 0; vp_sems++; return 0; }
int sem_destroy(sem_t *s) { int *p = (int *)s; VP_TC(p[1] == 0x53454d41, "semaphore was initialised"); VP_TC(!p[2], "semaphore destroyed while waited for"); p[1] = 0; vp_sems--; return 0; }
int sem_post(sem_t *s) { int *p = (int *)s; VP_TC(p[1] == 0x53454d41, "semaphore was initialised"); p[0]++; __vpx_yield(0); return 0; }
int sem_wait(sem_t *s) { int *p = (int *)s; __vpx_yield(0); VP_TC(p[1] == 0x53454d41, "semaphore was initialised"); if (vp_eintr > 0) { vp_eintr--; if (vp_flip()) { errno = EINTR; return -1; } } p[2]++; while (!p[0]) __vpx_block(); p[2]--; p[0]--; return 0; }
int sem_trywait(sem_t *s) { int *p = (int *)s; __vpx_yield(0); VP_TC(p[1] == 0x53454d41, "semaphore was initialised"); if (!p[0]) { errno = EAGAIN; return -1; } p[0]--; return 0; }
int pthread_attr_init(pthread_attr_t *a) { *(long *)a = 0x41545452; vp_attrs++; return 0; }
int pthread_attr_destroy(pthread_attr_t *a) { VP_TC(*(long *)a == 0x41545452, "attributes were initialised"); *(long *)a = 0; vp_attrs--; return 0; }
int pthread_attr_setdetachstate(pthread_attr_t *a, int d) { VP_TC(*(long *)a == 0x41545452, "attributes were initialised"); VP_TC(d == PTHREAD_CREATE_JOINABLE, "threads are joinable"); return 0; }
static unsigned long vp_stack;
int pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { VP_TC(*(long *)a == 0x41545452, "attributes were initialised"); if (n < 16384) return EINVAL; vp_stack = n; return 0; }
static void *vp_thread_main(void *p) { int k = (int)(long)p; vp_th[k].ret = vp_th[k].fn(vp_th[k].arg); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (a) VP_TC(*(long *)a == 0x41545452, "attributes were initialised"); int k = vp_threads; VP_TC(k < 16, "threads of the model"); *t = 0x7000 + 16 * (pthread_t)k; if (vp_createfail && vp_flip()) { vp_createfail--; *t = 0x7ff0; return EAGAIN; }
    vp_threads++; vp_th[k].used = 1; vp_th[k].fn = fn; vp_th[k].arg = arg; vp_th[k].tid = -1; int id = __vpx_spawn((void *)vp_thread_main, (void *)(long)k); vp_th[k].tid = id; return 0; }
int pthread_join(pthread_t t, void **r) { int k = (int)((t - 0x7000) / 16); VP_TC(t >= 0x7000 && k < 16 && vp_th[k].used, "joined a thread that was started"); VP_TC(!vp_th[k].joined, "joined once"); vp_th[k].joined = 1; __vpx_yield(0); while (vp_th[k].tid < 0 || !__vpx_done(vp_th[k].tid)) __vpx_block(); if (r) *r = vp_th[k].ret; return 0; }
#include <sched.h>
int sched_yield(void) { __vpx_yield(1); return 0; }
int pthread_detach(pthread_t t) { return 0; }
#endif
