// P38: mutexes, semaphores and sync objects, under every schedule within the preemption bound
#include "vp_threads.h"
#include "vp.h"
#ifndef N
#define N 2
#endif
#define SHARE(x) __vpx_shared(&(x), sizeof(x))
#define P2 (N * 2)
static void (*vp_one)(int); static void vp_go(void *p) { vp_one((int)(long)p); } static int id[8], nid;
static void spawn(int n, void (*one)(int)) { vp_one = one; for (int i = 0; i < n; i++) { id[nid] = __vpx_spawn((void *)vp_go, (void *)(long)nid); nid++; } }
static void join(void) { for (int i = 0; i < nid; i++) while (!__vpx_done(id[i])) __vpx_block(); }
// mutex
static zpl_mutex MX; static int inside, entered, left_, how[4];
static void m_one(int k) {
    for (int j = 0; j < 2; j++) { int held; if (how[k] >> j & 1) { int was = *(int *)&MX.pthread_mutex; zpl_b32 r = zpl_mutex_try_lock(&MX); held = *(int *)&MX.pthread_mutex == __vpx_tid() + 1; CHECK(!!r == held, "trying tells whether the mutex was taken"); } else { zpl_mutex_lock(&MX); held = 1; }
        if (!held) continue; CHECK(inside == 0, "one holder at a time"); inside++; entered++; __vpx_yield(0); CHECK(inside == 1, "one holder at a time"); __vpx_yield(0); inside--; left_++; zpl_mutex_unlock(&MX); }
}
//@ x=h_mutex q="T=60,J=3,PB=1000" t="T=400,J=6,PB=1000,N=3" threads=1 what="threads lock and try a mutex twice each: one holder at a time, trying says whether it succeeded and never waits, every locker gets in"
void h_mutex(void) {
    zpl_b32 i = zpl_mutex_init(&MX); CHECK(i, "initialised"); for (int k = 0; k < N; k++) how[k] = nd_pick(0, 3); SHARE(inside); spawn(N, m_one); join(); CHECK(entered == left_ && inside == 0 && entered >= 1, "everyone left");
    CHECK(zpl_mutex_try_lock(&MX), "free at the end"); CHECK(!zpl_mutex_try_lock(&MX), "held after trying"); zpl_mutex_unlock(&MX); zpl_b32 d = zpl_mutex_destroy(&MX); CHECK(d, "destroyed"); CHECK(vp_mxs == 0, "released"); REACHED();
}
// semaphore
static zpl_semaphore SM; static int posted, passed, want[4], cnt_[4];
static void s_one(int k) {
    if (k == 0) for (int j = 0; j < 2; j++) { int c = cnt_[j]; posted += c > 0 ? c : 0; if (c == 1) zpl_semaphore_release(&SM); else zpl_semaphore_post(&SM, c); }
    else for (int j = 0; j < want[k]; j++) { zpl_semaphore_wait(&SM); passed++; CHECK(passed <= posted, "no more waits return than posts were made"); }
}
//@ x=h_sem q="T=60,J=3,PB=1000" t="T=400,J=6,PB=1000,N=3" threads=1 what="posts of counts -1 to 3 against waits by other threads, with interrupted system calls: no wait returns early, none is lost, and exactly the remaining count can be taken without waiting"
void h_sem(void) {
    zpl_semaphore_init(&SM); int tot = 0, w = 0; vp_eintr = 2; for (int j = 0; j < 2; j++) { int c = nd_pick(0, 4); cnt_[j] = c - 1; tot += c > 1 ? c - 1 : 0; } for (int k = 1; k < N; k++) { want[k] = nd_pick(0, 3); w += want[k]; } ASSUME(w <= tot);
    spawn(N, s_one); join(); CHECK(posted == tot && passed == w, "all waits return"); int rest = 0; for (int i = 0; i < 8; i++) if (zpl_semaphore_trywait(&SM) == 0) rest++; CHECK(rest == tot - w, "what remains"); zpl_semaphore_destroy(&SM); CHECK(vp_sems == 0, "released"); REACHED();
}
static int twant[4], tgot[4], left2[4];
static void t_one(int k) { if (k == 0) { zpl_semaphore_post(&SM, cnt_[0]); zpl_semaphore_post(&SM, cnt_[1]); } else for (int j = 0; j < 2; j++) if (zpl_semaphore_trywait(&SM) == 0) tgot[k]++; }
//@ x=h_try q="T=60,J=3,PB=1000,N=3" t="T=400,J=6,PB=1000,N=3" threads=1 what="taking without waiting, against posts: never blocks, never takes more than was posted, loses nothing"
void h_try(void) {
    zpl_semaphore_init(&SM); int tot = 0, g = 0; for (int j = 0; j < 2; j++) { int c = nd_pick(0, 2); cnt_[j] = c; tot += c; } spawn(N, t_one); join(); for (int k = 1; k < N; k++) g += tgot[k]; CHECK(g <= tot, "no more than posted");
    int rest = 0; for (int i = 0; i < 8; i++) if (zpl_semaphore_trywait(&SM) == 0) rest++; CHECK(rest == tot - g, "what remains"); zpl_semaphore_destroy(&SM); REACHED();
}
// sync objects
static zpl_sync SY; static int arrived[2], outw[2], seen[2], wait_[8], rounds;
static void y_one(int k) {
    int r = k / N; __vpx_yield(0); arrived[r]++; if (wait_[k]) { zpl_sync_reach_and_wait(&SY); CHECK(arrived[r] == N, "released only when all have reached"); outw[r]++; }
    else { zpl_i32 n = zpl_sync_reach(&SY); CHECK(n >= 1 && n <= N, "number of arrival"); if (wait_[N * r] == 0 || N > 1) { CHECK(!(seen[r] >> n & 1), "every arrival has its own number"); seen[r] |= 1 << n; } }
}
static void sync_(int rounds_) {
    zpl_sync_init(&SY); nid = 0; for (int k = 0; k < rounds_ * N; k++) wait_[k] = nd_pick(0, 1); SHARE(SY.target); SHARE(SY.current); SHARE(SY.waiting); vp_eintr = 1;
    for (int r = 0; r < rounds_; r++) { zpl_sync_set_target(&SY, N); if (r) { CHECK(arrived[0] == N, "the next round starts when all have reached"); int w = 0; for (int k = 0; k < N; k++) w += wait_[k]; CHECK(SY.waiting == 0, "and nobody waits any more"); } spawn(N, y_one); }
    join(); for (int r = 0; r < rounds_; r++) { int w = 0; for (int k = 0; k < N; k++) w += wait_[r * N + k]; CHECK(arrived[r] == N && outw[r] == w, "everyone waiting is released"); }
    CHECK(SY.waiting == 0 && SY.target == 0, "nobody waits"); zpl_sync_set_target(&SY, 1); zpl_i32 n = zpl_sync_reach(&SY); CHECK(n == 1, "usable again"); zpl_sync_destroy(&SY); CHECK(vp_mxs == 0 && vp_sems == 0, "released"); REACHED();
}
//@ x=h_sync q="T=60,J=5,PB=4,N=3;T=30,J=6,PB=3,N=3" t="T=600,J=6,PB=1000,N=3" threads=1 what="threads that reach, or reach and wait, in any mix: nobody is released before all have reached, everyone is released, arrivals are numbered, the object can be used again and destroyed"
void h_sync(void) { sync_(1); }
//@ x=h_sync2 q="T=60,J=5,PB=4,N=2;T=30,J=5,PB=3,N=2" t="T=600,J=8,PB=1000,N=2" threads=1 what="two rounds: the second target is set only when the first round is over, and its waiters are not mixed up with those of the first"
void h_sync2(void) { sync_(2); }
