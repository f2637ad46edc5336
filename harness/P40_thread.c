// P40: threads, under every schedule within the preemption bound
#include "vp_threads.h"
#include "vp.h"
static struct { int ran, data_ok, done; void *data; zpl_isize ret; zpl_thread *t; } W[3];
static zpl_thread T[2];
static zpl_isize proc(zpl_thread *t) { int k = (int)(t - T); W[k].ran++; W[k].data_ok = t->user_data == W[k].data && t->proc == proc; __vpx_yield(0); W[k].done++; return W[k].ret; }
#define SHARE(x) __vpx_shared(&(x), sizeof(x))
//@ x=h_start q="T=60,J=2,PB=1000" t="T=600,J=4,PB=1000" threads=1 what="a started thread runs its procedure once with its data; the starter finds it running or finished; after joining its return value is there; it can be started again"
void h_start(void) {
    zpl_isize r[2] = {(zpl_isize)nd_u64(), (zpl_isize)nd_u64()}; int nowait = nd_bool() & 1; SHARE(T[0]); SHARE(W);
    if (nowait) zpl_thread_init_nowait(&T[0]); else zpl_thread_init(&T[0]); CHECK(!zpl_thread_is_running(&T[0]), "not running before the start");
    for (int i = 0; i < 2; i++) { W[0].ret = r[i]; W[0].data = &r[i]; W[0].ran = W[0].done = 0; zpl_b32 ok = zpl_thread_start(&T[0], proc, &r[i]); CHECK(ok, "started"); CHECK(nowait || zpl_thread_is_running(&T[0]) || W[0].done == 1, "running or finished when the start returns");
        zpl_thread_join(&T[0]); CHECK(W[0].ran == 1 && W[0].done == 1, "ran once"); CHECK(W[0].data_ok, "with its data"); CHECK(T[0].return_value == r[i], "return value"); CHECK(!zpl_thread_is_running(&T[0]), "not running after joining"); }
    zpl_thread_destroy(&T[0]); CHECK(vp_sems == 0 && vp_attrs == 0, "everything released"); REACHED();
}
//@ x=h_two q="T=60,J=4,PB=1000" t="T=900,J=8,PB=1000" threads=1 what="two threads run side by side, each once with its own data and result, joined in either order or by destroying them"
void h_two(void) {
    int o = nd_bool() & 1, how = nd_bool() & 1; for (int i = 0; i < 2; i++) { W[i].ret = (zpl_isize)nd_u64(); W[i].data = &W[i]; zpl_thread_init(&T[i]); CHECK(zpl_thread_start_with_stack(&T[i], proc, &W[i], 65536), "started"); }
    for (int j = 0; j < 2; j++) { int i = j ^ o; if (how) zpl_thread_destroy(&T[i]); else zpl_thread_join(&T[i]); CHECK(W[i].ran == 1 && W[i].done == 1 && W[i].data_ok, "ran once"); CHECK(T[i].return_value == W[i].ret, "return value"); }
    if (!how) for (int i = 0; i < 2; i++) zpl_thread_destroy(&T[i]); CHECK(vp_sems == 0 && vp_attrs == 0 && vp_th[0].joined && vp_th[1].joined, "everything released"); REACHED();
}
//@ x=h_fail q="T=60,J=2,PB=1000" t="T=300,J=4,PB=1000" threads=1 what="failure to create a thread is reported, nothing runs, and the thread can be started again or destroyed"
void h_fail(void) {
    int nowait = nd_bool() & 1; vp_createfail = 1; if (nowait) zpl_thread_init_nowait(&T[0]); else zpl_thread_init(&T[0]); W[0].data = &W; zpl_b32 ok = zpl_thread_start(&T[0], proc, &W); CHECK(!!ok == (vp_threads == 1), "failure reported");
    if (!ok) { CHECK(!zpl_thread_is_running(&T[0]), "not running"); if (nd_bool() & 1) { vp_createfail = 0; CHECK(zpl_thread_start(&T[0], proc, &W), "started after all"); ok = 1; } }
    zpl_thread_destroy(&T[0]); CHECK(W[0].ran == !!ok, "ran if started"); CHECK(vp_sems == 0 && vp_attrs == 0, "everything released"); REACHED();
}
//@ x=h_stack q="T=40,J=2,PB=1000" threads=1 what="the stack size asked for is the one requested, none is requested for size zero, and a restarted thread gets its new data, also when that is nothing"
void h_stack(void) {
    static unsigned const Z[6] = { 0, 16384, 20480, 65536, 69632, 1u << 20 }; unsigned z = Z[nd_pick(0, 5)]; SHARE(T[0]); SHARE(W); zpl_thread_init(&T[0]); vp_stack = 0; W[0].ret = 3; W[0].data = &W; CHECK(zpl_thread_start_with_stack(&T[0], proc, &W, z), "started"); zpl_thread_join(&T[0]); CHECK(vp_stack == z, "stack size"); CHECK(W[0].ran == 1 && W[0].data_ok, "its data");
    W[0].data = 0; CHECK(zpl_thread_start(&T[0], proc, 0), "started again"); zpl_thread_join(&T[0]); CHECK(W[0].ran == 2 && W[0].data_ok, "its new data"); zpl_thread_destroy(&T[0]); CHECK(vp_sems == 0 && vp_attrs == 0, "everything released"); REACHED();
}
