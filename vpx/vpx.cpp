// vpx: bounded symbolic executor for LLVM IR (clang output of the harness plus the real zpl sources).
// Explores every feasible path over symbolic inputs and thread schedules; branch feasibility, assertions
// and memory-safety conditions are decided by Z3 over all values; a failing condition yields a model.
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/BitWriter.h>
#include <llvm-c/Target.h>
#include <memory>
#include <map>
#include <set>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <cctype>
using std::vector; using std::string;
static double now();
#include "bb.h"
#include "real.h"
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options / shared results
static int O_jobs = 4; static double O_time = 60; static u64 O_steps = 3000000; static int O_preempt = 2; static string O_out; static int O_maxerr = 1; static u64 O_zms = 60000; static bool O_trace = false;
static int O_samples = 4; static int O_rdlim = 320; static int O_schedvar = 1, O_spin = 0;
struct Shared { volatile int stop; volatile int active; volatile u64 zq, paths, killed, forks, queries, qsat, qunsat, qunk, domq, steps, asserts, nontriv, timeouts, steplim, errs, samples, reached, spawned, oomkill, blocked, schedules, merged, seen; volatile double solver_s; volatile int lock; };
static Shared *S; static double T0, TEND; static int errfd = -1;
#define ADD(f, n) __sync_fetch_and_add(&S->f, (u64)(n))
static double my_solver_s;
static void put(const string &s) { (void)!write(errfd, s.data(), s.size()); }
static string esc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

// ------------------------------------------------------------------ module
static LLVMModuleRef M; static LLVMTargetDataRef TD;
struct Leaf { int w; u64 off; bool fp, ptr; };
static std::map<LLVMTypeRef, vector<Leaf>> leafcache;
static void leaves0(LLVMTypeRef t, u64 off, vector<Leaf> &o) {
    switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: { int w = LLVMGetIntTypeWidth(t); if (w == 128) { o.push_back({64, off, false, false}); o.push_back({64, off + 8, false, false}); } else o.push_back({w, off, false, false}); break; }
    case LLVMPointerTypeKind: o.push_back({64, off, false, true}); break;
    case LLVMFloatTypeKind: o.push_back({32, off, true, false}); break;
    case LLVMDoubleTypeKind: o.push_back({64, off, true, false}); break;
    case LLVMStructTypeKind: for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) leaves0(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o); break;
    case LLVMArrayTypeKind: { LLVMTypeRef e = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, e); for (u64 i = 0; i < LLVMGetArrayLength2(t); i++) leaves0(e, off + i * sz, o); break; }
    case LLVMVectorTypeKind: { LLVMTypeRef e = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, e); for (unsigned i = 0; i < LLVMGetVectorSize(t); i++) leaves0(e, off + i * sz, o); break; }
    case LLVMVoidTypeKind: break;
    default: o.push_back({64, off, false, false}); break;
    }
}
static const vector<Leaf> &leaves(LLVMTypeRef t) { auto it = leafcache.find(t); if (it != leafcache.end()) return it->second; vector<Leaf> v; leaves0(t, 0, v); return leafcache[t] = v; }

struct Val { u64 c; Expr *e; };
static inline Val C(u64 c) { return {c, 0}; }
static Val V(Expr *e);
static inline Expr *X(Val v, int w) { return v.e ? v.e : mkc(v.c, w); }
struct Opnd { int reg; vector<u64> c; };        // reg >= 0: register index (n lanes from there), else constants
struct Func;
enum IOp { I_BIN, I_CMP, I_FCMP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_LOAD, I_STORE, I_GEP, I_CALL, I_CAST, I_SELECT, I_ALLOCA, I_EXTRACT, I_INSERT, I_SHUFFLE, I_EXTELT, I_INSELT, I_COPY, I_FNEG, I_UNREACH, I_RMW, I_CMPXCHG, I_FENCE, I_BAD };
struct PhiMove { int dst, n; Opnd src; };
struct Inst { IOp op; int sub; int w, sw; int dst, n; bool fp, sfp; vector<Opnd> o; vector<u64> k; vector<Leaf> lv; LLVMValueRef lv_; Func *callee; string asmstr, asmcon; int line; vector<int> tgt; vector<vector<PhiMove>> phi; string name; vector<u64> byval; };
struct Func { LLVMValueRef v; string name; u64 addr; bool atomic; bool defined, ready; int nregs; vector<vector<Inst>> bb; vector<std::pair<int,int>> params; int builtin; bool seen; };
static std::map<LLVMValueRef, Func *> funcs; static std::map<u64, Func *> faddr; static std::map<LLVMValueRef, u64> gaddr;

// ------------------------------------------------------------------ memory
struct Obj { u64 base, size; vector<u8> b; vector<Expr *> s; int kind; /*0 stack 1 heap 2 global*/ string name; bool ro; };
typedef std::shared_ptr<Obj> ObjP;
static vector<ObjP> roobj;         // constant objects, shared by all states
struct AsmSt { bool on; int pc; vector<Val> r; bool zf; };
struct Frame { Func *f; int bb, ip, prev; AsmSt as; vector<Val> r; vector<u64> al; vector<Val> va; vector<int> vaw; int callret; };
struct Thr { vector<Frame> st; bool done, waiting; u64 ret; int spin; };
struct State {
    vector<Thr> th; int cur; vector<ObjP> mem; u64 bump; vector<Expr *> pc; vector<u64> model; vector<std::array<u64, 4>> dom; vector<u8> multi, fixd; vector<std::pair<int, u64>> inputs; /* var or -1,const */
    u64 steps; int preempts; bool reached; vector<int> sched; u64 nlive; bool dead; u64 yp; bool dirty; int idle; vector<std::pair<u64, u64>> shared;
    std::unordered_set<Expr *> pcset;
};
typedef std::unique_ptr<State> SP;
static vector<SP> work;
static State *st;                  // running state
static u64 gbump = 0x10000000;
static vector<ObjP> ginit;         // initial mutable globals
struct Err { string msg; }; struct Kill { string why; };

static Obj *find(State *s, u64 a, bool wr) {
    auto &v = s->mem; size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; }
    if (lo) { ObjP &o = v[lo - 1]; if (a - o->base < o->size || a == o->base) { if (wr && o.use_count() > 1) o = std::make_shared<Obj>(*o); return o.get(); } }
    auto &r = roobj; lo = 0; hi = r.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (r[m]->base <= a) lo = m + 1; else hi = m; }
    if (lo) { ObjP &o = r[lo - 1]; if (a - o->base < o->size || a == o->base) return o.get(); }
    return 0;
}
static string near(State *s, u64 a) {
    Obj *best = 0; for (auto &o : s->mem) if (o->base <= a && (!best || o->base > best->base)) best = o.get(); for (auto &o : roobj) if (o->base <= a && (!best || o->base > best->base)) best = o.get();
    char buf[200]; if (a < 4096) { snprintf(buf, sizeof buf, "null pointer (%llu)", (unsigned long long)a); return buf; }
    if (best && a - best->base < best->size + 4096) { snprintf(buf, sizeof buf, "%lld bytes past start of %s object '%s' of %llu bytes", (long long)(a - best->base), best->kind == 0 ? "stack" : best->kind == 1 ? "heap" : "global", best->name.c_str(), (unsigned long long)best->size); return buf; }
    snprintf(buf, sizeof buf, "address %llx (freed or invalid)", (unsigned long long)a); return buf;
}
static ObjP newobj(u64 &bump, u64 size, u64 align, int kind, const string &name) {
    if (align < 16) align = 16; bump = (bump + align - 1) & ~(align - 1);
    ObjP o = std::make_shared<Obj>(); o->base = bump; o->size = size; o->kind = kind; o->name = name; o->ro = false; o->b.assign(size, kind == 2 ? 0 : 0xCD);
    bump += size + 32; bump = (bump + 15) & ~15ull; if (bump % 64 == 0) bump += 16;   // vary the incidental alignment
    return o;
}

static Val V(Expr *e) { if (isc(e)) return {e->c, 0}; if (st) { bool all = true; for (u32 v : *e->sup) if (!st->fixd[v]) { all = false; break; } if (all) return {eval(e, st->model), 0}; } return {0, e}; }
// ------------------------------------------------------------------ solver
static Z3_solver zs_bv, zs_fp; static std::unordered_map<u64, int> qcache; 
static vector<u64> g_scratch;
static vector<u32> fixv;               // variables of the slice whose value the path condition fixes
static void collect(State *s, Expr *cond, vector<Expr *> &out) {   // constraints transitively sharing variables with cond
    static vector<u32> mark; static u32 ep = 0; static vector<u32> emark; ep++;
    if (mark.size() < g_varw.size() + 1) mark.resize(g_varw.size() + 64, 0);
    fixv.clear(); for (u32 v : *cond->sup) if (s->fixd[v]) fixv.push_back(v); else mark[v] = ep;
    vector<char> used(s->pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { Expr *e = s->pc[i]; bool hit = false; for (u32 v : *e->sup) if (mark[v] == ep) { hit = true; break; }
            if (hit) { used[i] = 1; out.push_back(e); for (u32 v : *e->sup) if (mark[v] != ep) { if (s->fixd[v]) fixv.push_back(v); else { mark[v] = ep; ch = true; } } } } }
    std::sort(fixv.begin(), fixv.end()); fixv.erase(std::unique(fixv.begin(), fixv.end()), fixv.end());
}
enum R { UNSAT, SAT, UNK };
static bool fpbb(const vector<Expr *> &cs, Expr *cond) { std::unordered_set<Expr *> seen; for (Expr *e : cs) if (!bbfp_ok(e, seen)) return false; return bbfp_ok(cond, seen); }
static R query1(State *s, Expr *cond, vector<u64> *model, bool force_z3) {
    if (isc(cond)) { if (cond->c) { if (model) *model = s->model; return SAT; } return UNSAT; }
    // exact finite-domain decision for conditions over one byte that no multi-variable constraint mentions
    if (!force_z3 && cond->sup->size() == 1 && g_varw[(*cond->sup)[0]] == 8) {
        u32 v = (*cond->sup)[0]; const auto &t = truth(cond, g_scratch); auto &d = s->dom[v]; u64 any = 0; std::array<u64, 4> x; for (int i = 0; i < 4; i++) { x[i] = t[i] & d[i]; any |= x[i]; }
        if (!any) { ADD(domq, 1); return UNSAT; }
        if (!s->multi[v] && !s->fixd[v]) { ADD(domq, 1); if (model) { *model = s->model; for (int i = 0; i < 256; i++) if (x[i >> 6] >> (i & 63) & 1) { (*model)[v] = i; break; } } return SAT; }
    }
    { bool all = true; for (u32 v : *cond->sup) if (!s->fixd[v]) { all = false; break; }
      if (all) { ADD(domq, 1); if (!eval(cond, s->model)) return UNSAT; if (model) *model = s->model; return SAT; } }
    vector<Expr *> cs; collect(s, cond, cs);
    for (u32 v : fixv) cs.push_back(mkbin(KEQ, mk(KVAR, g_varw[v], v, 0, 0, 0), mkc(s->model[v], g_varw[v])));
    if (!force_z3) {   // small product of byte domains: decided exactly by evaluating every combination
        static vector<u32> vs; vs.clear(); u64 prod = 1; std::set<u32> sv; for (Expr *e : cs) for (u32 v : *e->sup) sv.insert(v); for (u32 v : *cond->sup) sv.insert(v);
        for (u32 v : sv) if (!s->fixd[v]) { if (g_varw[v] != 8) { prod = 1 << 30; break; } u64 n = 0; for (u64 x : s->dom[v]) n += __builtin_popcountll(x); prod *= n; if (prod > 512) break; vs.push_back(v); }
        if (prod <= 512) { ADD(domq, 1); vector<u64> m = s->model; vector<vector<u8>> vals(vs.size()); vector<size_t> ix(vs.size(), 0);
            for (size_t i = 0; i < vs.size(); i++) for (int k = 0; k < 256; k++) if (s->dom[vs[i]][k >> 6] >> (k & 63) & 1) vals[i].push_back(k);
            while (true) { for (size_t i = 0; i < vs.size(); i++) m[vs[i]] = vals[i][ix[i]]; g_epoch++; bool ok = ev(cond, m.data()); if (ok) for (Expr *e : cs) if (!ev(e, m.data())) { ok = false; break; }
                if (ok) { if (model) *model = m; return SAT; } size_t i = 0; for (; i < vs.size(); i++) { if (++ix[i] < vals[i].size()) break; ix[i] = 0; } if (i == vs.size()) return UNSAT; } } }
    u64 key = 0x1234567 ^ (u64)cond->id * 0x9E3779B97F4A7C15ull; { vector<u32> ids; for (Expr *e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); for (u32 i : ids) { key ^= i + 0x9E3779B97F4A7C15ull + (key << 6) + (key >> 2); key *= 0xff51afd7ed558ccdull; } }
    if (!force_z3) { auto it = qcache.find(key); if (it != qcache.end() && (it->second == UNSAT || !model)) return (R)it->second; }
    bool fp = cond->fp; for (Expr *e : cs) fp |= e->fp;
    double t = now(); R res = UNK; bool zneed = fp; ADD(queries, 1);
    if (fp && O_real) { zneed = false; ADD(zq, 1); vector<u64> m2 = s->model; int q = rsolve(cs, cond, (unsigned)O_zms, &m2); res = q == 0 ? UNSAT : q == 1 ? SAT : UNK; if (res == SAT && model) *model = m2; }
    if (!fp || (!O_real && fpbb(cs, cond))) {
        vector<Expr *> all(cs); all.push_back(cond); double lim = O_zms / 1000.0; int b = bsolve(all, lim < 20 ? lim : 20);
        if (b == 1) { vector<u64> m2 = s->model; std::set<u32> vs; for (Expr *e : all) vs.insert(e->sup->begin(), e->sup->end());
            for (u32 v : vs) { u64 x; if (bsval(v, g_varw[v], x)) m2[v] = x; }
            bool ok = true; g_epoch++; for (Expr *e : all) if (!ev(e, m2.data())) { ok = false; break; }
            if (ok) { res = SAT; zneed = false; if (model) *model = m2; } else { fprintf(stderr, "vpx: model check failed\n"); zneed = true; } }
        else if (b == 0) { res = UNSAT; zneed = false; static u64 nu; nu++; if (nu <= 20 || (nu & 511) == 0) zneed = true; }   /* sampled cross-check */
        else zneed = true;
    }
    if (zneed) {
        Z3_solver zs = fp ? zs_fp : zs_bv; ADD(zq, 1);
        { Z3_params zp = Z3_mk_params(Z); Z3_params_inc_ref(Z, zp); Z3_params_set_uint(Z, zp, Z3_mk_string_symbol(Z, "timeout"), res == UNSAT && O_zms > 1500 ? 1500 : (unsigned)O_zms); Z3_solver_set_params(Z, zs, zp); Z3_params_dec_ref(Z, zp); }
        Z3_solver_push(Z, zs); for (Expr *e : cs) Z3_solver_assert(Z, zs, zbool(e)); Z3_solver_assert(Z, zs, zbool(cond));
        Z3_lbool r = Z3_solver_check(Z, zs);
        if (res == UNSAT) { if (r == Z3_L_TRUE) { put("{\"kind\":\"unsupported\",\"msg\":\"solver disagreement\"}\n"); S->stop = 1; ADD(timeouts, 1); res = UNK; } }
        else {
            res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
            if (res == SAT && model) {
                Z3_model m = Z3_solver_get_model(Z, zs); Z3_model_inc_ref(Z, m); *model = s->model;
                std::set<u32> vs(cond->sup->begin(), cond->sup->end()); for (Expr *e : cs) vs.insert(e->sup->begin(), e->sup->end());
                for (u32 v : vs) { Z3_ast a = 0; Expr *ve = mk(KVAR, g_varw[v], v, 0, 0, 0); u64 val = 0; if (Z3_model_eval(Z, m, zx(ve), true, &a) && Z3_get_numeral_uint64(Z, a, &val)) (*model)[v] = val; }
                Z3_model_dec_ref(Z, m);
            }
        }
        Z3_solver_pop(Z, zs, 1);
    }
    my_solver_s += now() - t;
    if (res == SAT) ADD(qsat, 1); else if (res == UNSAT) ADD(qunsat, 1); else ADD(qunk, 1);
    if (res != UNK) qcache[key] = res;
    return res;
}
static R query(State *s, Expr *cond, vector<u64> *model, bool force_z3 = false) {
    if (!force_z3 && !isc(cond)) {       // sampled cross-check of the finite-domain decisions by the solver
        static u64 n; n++; u64 d0 = S->domq; R a = query1(s, cond, model, false);
        static double tchk; if (S->domq != d0 && (n <= 100 || (n & 2047) == 0) && tchk < 4) { double t0 = now(); u64 z = O_zms; O_zms = z < 1500 ? z : 1500; R b = query1(s, cond, 0, true); O_zms = z; tchk += now() - t0; if (b != UNK && a != b) { put("{\"kind\":\"unsupported\",\"msg\":\"decision procedure disagreement\"}\n"); S->stop = 1; ADD(timeouts, 1); return UNK; } }
        return a;
    }
    return query1(s, cond, model, force_z3);
}
// exact domain narrowing of a constraint with at most one unfixed byte variable; false: more than one unfixed variable or not a byte
static bool narrow1(State *s, Expr *c, vector<u32> &fixed) {
    i64 u = -1; for (u32 v : *c->sup) if (!s->fixd[v]) { if (u >= 0) return false; u = v; }
    if (u < 0) return true; if (g_varw[u] != 8) return false;
    auto &d = s->dom[u]; u64 n = 0; int last = 0;
    if (c->sup->size() == 1) { const auto &t = truth(c, g_scratch); for (int i = 0; i < 4; i++) d[i] &= t[i]; }
    else { static vector<u64> m; m = s->model; for (int i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) { m[u] = i; if (!eval(c, m)) d[i >> 6] &= ~(1ull << (i & 63)); } }
    for (int i = 0; i < 4; i++) n += __builtin_popcountll(d[i]);
    if (n == 1) { for (int i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) last = i; s->fixd[u] = 1; s->model[u] = last; fixed.push_back((u32)u); }
    return true;
}
static void constrain(State *s, Expr *c) {
    if (isc(c)) return;
    if (c->k == KAND && c->w == 1) { constrain(s, c->a); constrain(s, c->b); return; }
    if (!s->pcset.insert(c).second) return;
    s->pc.push_back(c); vector<u32> fixed;
    if (c->k == KEQ && c->a->k == KVAR && isc(c->b) && !s->fixd[c->a->c]) { u32 x = (u32)c->a->c; s->fixd[x] = 1; fixed.push_back(x); s->model[x] = c->b->c; if (g_varw[x] == 8) { s->dom[x].fill(0); s->dom[x][c->b->c >> 6] = 1ull << (c->b->c & 63); } }
    else if (!narrow1(s, c, fixed)) for (u32 v : *c->sup) if (!s->fixd[v]) s->multi[v] = 1;
    while (!fixed.empty()) {   // residual constraints may have become unary
        fixed.clear(); vector<u8> mul(s->multi.size(), 0);
        for (Expr *e : s->pc) if (e->sup->size() > 1 && !narrow1(s, e, fixed)) for (u32 v : *e->sup) if (!s->fixd[v]) mul[v] = 1;
        s->multi.swap(mul);
    }
}
static SP clone(State *s) { ADD(forks, 1); return SP(new State(*s)); }
static void fork_with(Expr *c, vector<u64> &m) { SP n = clone(st); constrain(n.get(), c); n->model = m; work.push_back(std::move(n)); }
static void checktime() { if (now() > TEND) { S->stop = 1; ADD(timeouts, 1); } }
// decide a condition: returns the side this state continues on (the other side, if feasible, was forked before the current instruction)
static bool branch(Expr *c) {
    if (isc(c)) return c->c;
    bool v = eval(c, st->model); Expr *taken = v ? c : mknot(c), *other = v ? mknot(c) : c;
    if (st->pcset.count(taken)) return v;
    if (O_real && st->pcset.count(other)) return !v;      // candidate models need not satisfy the floating-point conditions
    vector<u64> m; R r = query(st, other, &m);
    if (r == SAT) fork_with(other, m);
    else if (r == UNK) ADD(timeouts, 1);
    if (r == SAT || r == UNK) constrain(st, taken);
    return v;
}
static u64 concretize(Val v, int w) {
    if (!v.e) return v.c;
    u64 k = eval(v.e, st->model); Expr *eq = mkbin(KEQ, v.e, mkc(k, w));
    branch(eq); return k;
}
static vector<u64> testvals(const vector<u64> &model) { vector<u64> o; for (auto &p : st->inputs) o.push_back(p.first >= 0 ? model[p.first] : p.second); return o; }
static string where() {
    string r; auto &T = st->th[st->cur]; int n = 0;
    for (int i = (int)T.st.size() - 1; i >= 0 && n < 6; i--, n++) { Frame &f = T.st[i]; if (!f.f) continue; int ip = i == (int)T.st.size() - 1 ? f.ip : f.ip - 1; int line = 0; if (f.bb < (int)f.f->bb.size() && ip >= 0 && ip < (int)f.f->bb[f.bb].size()) line = f.f->bb[f.bb][ip].line; r += (r.empty() ? "" : " < ") + f.f->name + ":" + std::to_string(line); }
    return r;
}
static void report(const string &msg, const vector<u64> &model, const char *kind) {
    u64 n = ADD(errs, 1); if ((int)n >= O_maxerr * 4) return;
    string s = string("{\"kind\":\"") + kind + "\",\"msg\":\"" + esc(msg) + "\",\"where\":\"" + esc(where()) + "\",\"inputs\":["; auto t = testvals(model); for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string(t[i]);
    s += "],\"sched\":["; for (size_t i = 0; i < st->sched.size(); i++) s += (i ? "," : "") + std::to_string(st->sched[i]); s += "]}\n"; put(s);
    if ((int)n + 1 >= O_maxerr) S->stop = 1;
}
static void fail(const string &msg) { throw Err{msg}; }
// condition that must hold: report (with model) if it can be false, continue on the true side
static void require(Expr *c, const string &msg, const char *kind) {
    ADD(asserts, 1);
    if (isc(c)) { if (!c->c) { report(msg, st->model, kind); throw Kill{"error"}; } return; }
    ADD(nontriv, 1);
    Expr *n = mknot(c); vector<u64> m;
    bool bad = !eval(c, st->model); if (bad && !O_real) { report(msg, st->model, kind); R r = query(st, c, &m); if (r != SAT) throw Kill{"error"}; st->model = m; constrain(st, c); return; }
    // the first assertions go to the solver even where the finite-domain procedure could decide them (bounded effort)
    static u64 nforced; static double tforced; R r = UNK; bool f = nforced++ < 500 && tforced < 4;
    if (f) { double t0 = now(); u64 z = O_zms; O_zms = z < 1500 ? z : 1500; r = query(st, n, &m, true); O_zms = z; tforced += now() - t0; }
    if (r == UNK) r = query(st, n, &m);
    if (r == SAT) { report(msg, m, kind); constrain(st, c); }
    else if (r == UNK) { if (bad) report(msg, st->model, kind); ADD(qunk, 1); ADD(timeouts, 1); constrain(st, c); }
}
// resolve an address to an object and a concrete offset range
static u64 resolve(Val a, u64 n, bool wr, Obj *&o, const char *what) {
    if (!a.e) { o = find(st, a.c, wr); if (!o || a.c - o->base + n > o->size || (wr && o->ro)) { if (n == 0) { o = 0; return 0; } fail(string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + near(st, a.c)); } return a.c - o->base; }
    // symbolic: pick the object of the current model, require/branch on staying inside it
    u64 k = eval(a.e, st->model); o = find(st, k, false);
    if (!o || k - o->base + n > o->size || (wr && o->ro)) { fail(string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + near(st, k)); }
    Expr *in = mkbin(KULE, mkbin(KSUB, a.e, mkc(o->base, 64)), mkc(o->size - n, 64));
    branch(in);
    return ~0ull;
}
static Val ldbyte(Obj *o, u64 i) { if (!o->s.empty() && o->s[i]) return {0, o->s[i]}; return {o->b[i], 0}; }
static void stbyte(Obj *o, u64 i, Val v) { if (v.e) { if (o->s.empty()) o->s.assign(o->size, 0); o->s[i] = v.e; } else { o->b[i] = (u8)v.c; if (!o->s.empty()) o->s[i] = 0; } }
static Val ldat(Obj *o, u64 off, int w) {
    int n = (w + 7) / 8; bool sym = false; if (!o->s.empty()) for (int i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) { u64 v = 0; memcpy(&v, &o->b[off], n); return C(v & mask(w)); }
    Expr *e = X(ldbyte(o, off + n - 1), 8); for (int i = n - 2; i >= 0; i--) e = mkconcat(e, X(ldbyte(o, off + i), 8));
    if (w < n * 8) e = mkextract(e, 0, w); return V(e);
}
static void stat_(Obj *o, u64 off, int w, Val v) {
    int n = (w + 7) / 8;
    if (!v.e) { u64 c = v.c & mask(w); memcpy(&o->b[off], &c, n); if (!o->s.empty()) for (int i = 0; i < n; i++) o->s[off + i] = 0; return; }
    Expr *e = v.e; if (e->w < n * 8) e = mkzext(e, n * 8); for (int i = 0; i < n; i++) stbyte(o, off + i, V(mkextract(e, i * 8, 8)));
}
// feasible offsets of a symbolic address inside o, at most lim (empty if more)
static Val load(Val a, int w) {
    Obj *o; u64 n = (w + 7) / 8; u64 off = resolve(a, n, false, o, "read");
    if (off != ~0ull) return ldat(o, off, w);
    Expr *rel = mkbin(KSUB, a.e, mkc(o->base, 64)); u64 cnt = o->size - n + 1;
    // offset = c + k*x : enumerate only the offsets the expression can take when it ranges over one byte
    vector<u64> offs; bool have = false;
    if (rel->sup->size() == 1 && g_varw[(*rel->sup)[0]] == 8) {
        u32 v = (*rel->sup)[0]; vector<u64> m = st->model; std::set<u64> so; for (int i = 0; i < 256; i++) if (st->dom[v][i >> 6] >> (i & 63) & 1) { m[v] = i; u64 x = eval(rel, m); if (x < cnt) so.insert(x); } offs.assign(so.begin(), so.end()); have = true;
    } else if (cnt <= (u64)O_rdlim * 8) { // stride from alignment of the expression: low bits constant?
        u64 base = eval(rel, st->model); int sh = 0; for (; sh < 4; sh++) { Expr *lo = mkextract(rel, 0, sh + 1); if (!isc(lo)) break; }
        u64 step = 1ull << sh; for (u64 x = base & (step - 1); x < cnt; x += step) offs.push_back(x); have = offs.size() <= (u64)O_rdlim;
    }
    if (!have || offs.empty()) { u64 k = concretize(a, 64); return ldat(o, k - o->base, w); }
    Val r = ldat(o, offs[0], w); Expr *acc = X(r, w); for (size_t i = 1; i < offs.size(); i++) acc = mkite(mkbin(KEQ, rel, mkc(offs[i], 64)), X(ldat(o, offs[i], w), w), acc);
    return V(acc);
}
static bool isshared(const Val &a) { if (a.e) return false; for (auto &r : st->shared) if (a.c >= r.first && a.c < r.second) return true; return false; }
static void store(Val a, int w, Val v) {
    Obj *o; u64 n = (w + 7) / 8; u64 off = resolve(a, n, true, o, "write");
    if (off == ~0ull) { u64 k = concretize(a, 64); o = find(st, k, true); off = k - o->base; }
    if (st->th.size() > 1 && !st->dirty && (o->kind != 0 || isshared(a))) { Val old = ldat(o, off, w); st->dirty = old.e || v.e ? old.e != v.e : old.c != (v.c & mask(w)); }
    stat_(o, off, w, v);
}
static u64 alloc(u64 size, u64 align, int kind, const string &name) { ObjP o = newobj(st->bump, size, align, kind, name); u64 b = o->base; st->mem.push_back(std::move(o)); if (kind == 1) st->nlive++; return b; }
static void freeobj(u64 base) { auto &v = st->mem; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base < base) lo = m + 1; else hi = m; } if (lo < v.size() && v[lo]->base == base) v.erase(v.begin() + lo); }
static void heapfree(u64 p) { if (!p) return; Obj *o = find(st, p, false); if (!o || o->base != p || o->kind != 1) fail("free of a pointer that is not a live heap block: " + near(st, p)); freeobj(p); st->nlive--; }

// ------------------------------------------------------------------ constants and translation
static u64 caddr(LLVMValueRef v);
static void cbytes(LLVMValueRef v, vector<u8> &out, u64 off) {
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantAggregateZero(v) || LLVMIsAConstantPointerNull(v)) return;
    switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind: for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) cbytes(LLVMGetAggregateElement(v, i), out, off + LLVMOffsetOfElement(TD, t, i)); return;
    case LLVMArrayTypeKind: { u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (u64 i = 0; i < LLVMGetArrayLength2(t); i++) cbytes(LLVMGetAggregateElement(v, (unsigned)i), out, off + i * es); return; }
    case LLVMVectorTypeKind: { u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (u64 i = 0; i < LLVMGetVectorSize(t); i++) cbytes(LLVMGetAggregateElement(v, (unsigned)i), out, off + i * es); return; }
    default: { const auto &L = leaves(t); if (L.size() != 1) return; u64 c = caddr(v); memcpy(&out[off], &c, (L[0].w + 7) / 8); }
    }
}
static Func *getfunc(LLVMValueRef v);
static u64 caddr(LLVMValueRef v) {        // scalar constant value
    if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantPointerNull(v)) return 0;
    if (LLVMIsAConstantInt(v)) return LLVMConstIntGetZExtValue(v);
    if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); return LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind ? fromf((float)d) : fromd(d); }
    if (LLVMIsAFunction(v)) return getfunc(v)->addr;
    if (LLVMIsAGlobalVariable(v)) return gaddr[v];
    if (LLVMIsAConstantAggregateZero(v)) return 0;
    if (LLVMIsAConstantExpr(v)) {
        auto op = LLVMGetConstOpcode(v); LLVMValueRef a = LLVMGetOperand(v, 0);
        switch (op) {
        case LLVMBitCast: case LLVMIntToPtr: case LLVMPtrToInt: case LLVMAddrSpaceCast: return caddr(a) & mask(leaves(LLVMTypeOf(v))[0].w);
        case LLVMTrunc: return caddr(a) & mask(leaves(LLVMTypeOf(v))[0].w); 
        case LLVMAdd: return caddr(a) + caddr(LLVMGetOperand(v, 1)); case LLVMSub: return caddr(a) - caddr(LLVMGetOperand(v, 1));
        case LLVMGetElementPtr: {
            u64 p = caddr(a); LLVMTypeRef t = LLVMGetGEPSourceElementType(v); int n = LLVMGetNumOperands(v);
            for (int i = 1; i < n; i++) { LLVMValueRef iv = LLVMGetOperand(v, i); i64 ix = (i64)sx(caddr(iv), leaves(LLVMTypeOf(iv))[0].w);
                if (i == 1) p += ix * LLVMABISizeOfType(TD, t);
                else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { p += LLVMOffsetOfElement(TD, t, (unsigned)ix); t = LLVMStructGetTypeAtIndex(t, (unsigned)ix); }
                else { t = LLVMGetElementType(t); p += ix * LLVMABISizeOfType(TD, t); } }
            return p; }
        default: fprintf(stderr, "vpx: unsupported constant expression %d\n", (int)op); return 0;
        }
    }
    fprintf(stderr, "vpx: unsupported constant kind %d\n", (int)LLVMGetValueKind(v)); return 0;
}
static void cflat(LLVMValueRef v, vector<u64> &out) {
    LLVMTypeRef t = LLVMTypeOf(v); const auto &L = leaves(t); auto k = LLVMGetTypeKind(t);
    if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantAggregateZero(v)) { out.insert(out.end(), L.size(), 0); return; }
    if (k == LLVMStructTypeKind) { for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) cflat(LLVMGetAggregateElement(v, i), out); return; }
    if (k == LLVMArrayTypeKind) { for (u64 i = 0; i < LLVMGetArrayLength2(t); i++) cflat(LLVMGetAggregateElement(v, (unsigned)i), out); return; }
    if (k == LLVMVectorTypeKind) { for (unsigned i = 0; i < LLVMGetVectorSize(t); i++) cflat(LLVMGetAggregateElement(v, i), out); return; }
    if (k == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) == 128) { out.push_back(LLVMConstIntGetZExtValue(v)); out.push_back(0); return; }
    out.push_back(caddr(v));
}
static std::map<string, int> BI; 
enum { B_NONE, B_ND8 = 1, B_FSHR, B_BITREV, B_OVF, B_USAT, B_FMINMAX, B_ISCONST, B_OBJSIZE, B_PAUSE, B_FENCE, B_SHARED, B_ND16, B_ND32, B_ND64, B_ASSUME, B_CHECK, B_REACHED, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ALIGNED, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_VASTART, B_VAEND, B_VACOPY, B_NOP, B_FABS, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_RINT, B_SQRT, B_TRAP, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_CTPOP, B_BSWAP, B_CTLZ, B_CTTZ, B_ABS, B_FSHL, B_IDENT, B_STACKSAVE, B_TSPAWN, B_YIELD, B_BLOCK, B_TID, B_TDONE, B_ERRNO, B_LIVE, B_ISSYM, B_CONCRETE, B_FMULADD, B_MINMAXF, B_COPYSIGN, B_DOUBLEFN, B_WRITABLE, B_PRINT, B_UADDO, B_EXIT, B_CHOOSE };
// the modelled pthread and semaphore functions are atomic but for the scheduling points they state themselves
static bool atomicfn(const string &n) { return n.compare(0, 8, "pthread_") == 0 || n.compare(0, 4, "sem_") == 0 || n.compare(0, 3, "vp_") == 0; }
static Func *getfunc(LLVMValueRef v) {
    auto it = funcs.find(v); if (it != funcs.end()) return it->second;
    Func *f = new Func(); size_t l; f->v = v; f->name = LLVMGetValueName2(v, &l); static u64 fa = 0x1000000; f->addr = fa; fa += 16; f->defined = !LLVMIsDeclaration(v); f->ready = false; f->builtin = 0; f->seen = false; f->nregs = 0; f->atomic = atomicfn(f->name);
    funcs[v] = f; faddr[f->addr] = f;
    const string &n = f->name; auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    auto b = BI.find(n); if (b != BI.end() && !f->defined) f->builtin = b->second;
    else if (pre("llvm.")) {
        static const struct { const char *p; int b; } T[] = {{"llvm.x86.sse2.pause", B_PAUSE}, {"llvm.x86.sse2.mfence", B_FENCE}, {"llvm.x86.sse2.lfence", B_FENCE}, {"llvm.x86.sse.sfence", B_FENCE}, {"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMMOVE}, {"llvm.memset", B_MEMSET}, {"llvm.va_start", B_VASTART}, {"llvm.va_end", B_VAEND}, {"llvm.va_copy", B_VACOPY}, {"llvm.dbg", B_NOP}, {"llvm.lifetime", B_NOP}, {"llvm.assume", B_NOP}, {"llvm.prefetch", B_NOP}, {"llvm.fabs", B_FABS}, {"llvm.floor", B_FLOOR}, {"llvm.ceil", B_CEIL}, {"llvm.trunc", B_TRUNC}, {"llvm.round", B_ROUND}, {"llvm.rint", B_RINT}, {"llvm.nearbyint", B_RINT}, {"llvm.sqrt", B_SQRT}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.debugtrap", B_TRAP}, {"llvm.smax", B_SMAX}, {"llvm.smin", B_SMIN}, {"llvm.umax", B_UMAX}, {"llvm.umin", B_UMIN}, {"llvm.ctpop", B_CTPOP}, {"llvm.bswap", B_BSWAP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.abs", B_ABS}, {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR}, {"llvm.bitreverse", B_BITREV}, {"llvm.uadd.with", B_OVF}, {"llvm.usub.with", B_OVF}, {"llvm.sadd.with", B_OVF}, {"llvm.ssub.with", B_OVF}, {"llvm.umul.with", B_OVF}, {"llvm.smul.with", B_OVF}, {"llvm.uadd.sat", B_USAT}, {"llvm.usub.sat", B_USAT}, {"llvm.minnum", B_FMINMAX}, {"llvm.maxnum", B_FMINMAX}, {"llvm.is.constant", B_ISCONST}, {"llvm.objectsize", B_OBJSIZE}, {"llvm.expect", B_IDENT}, {"llvm.threadlocal", B_IDENT}, {"llvm.stacksave", B_STACKSAVE}, {"llvm.stackrestore", B_NOP}, {"llvm.fmuladd", B_FMULADD}, {"llvm.copysign", B_COPYSIGN}};
        for (auto &x : T) if (pre(x.p)) { f->builtin = x.b; break; }
    }
    return f;
}
static void translate(Func *f) {
    f->ready = true; std::map<LLVMValueRef, int> reg; int nr = 0; std::map<LLVMBasicBlockRef, int> bbi; int nb = 0;
    for (unsigned i = 0; i < LLVMCountParams(f->v); i++) { LLVMValueRef p = LLVMGetParam(f->v, i); int n = (int)leaves(LLVMTypeOf(p)).size(); reg[p] = nr; f->params.push_back({nr, n}); nr += n; }
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) { bbi[b] = nb++; for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { int n = (int)leaves(LLVMTypeOf(i)).size(); if (n) { reg[i] = nr; nr += n; } } }
    f->nregs = nr; f->bb.resize(nb);
    auto opnd = [&](LLVMValueRef v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; return o; } o.reg = -1; if (LLVMIsConstant(v)) cflat(v, o.c); return o; };
    auto width = [&](LLVMTypeRef t) { const auto &L = leaves(t); return L.empty() ? 0 : L[0].w; };
    int bi = 0;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b), bi++) {
        auto phis = [&](LLVMBasicBlockRef t) { vector<PhiMove> r; for (LLVMValueRef i = LLVMGetFirstInstruction(t); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) for (unsigned k = 0; k < LLVMCountIncoming(i); k++) if (LLVMGetIncomingBlock(i, k) == b) { r.push_back({reg[i], (int)leaves(LLVMTypeOf(i)).size(), opnd(LLVMGetIncomingValue(i, k))}); break; } return r; };
        for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            LLVMOpcode op = LLVMGetInstructionOpcode(i); if (op == LLVMPHI) continue;
            Inst x; x.op = I_BAD; x.sub = op; LLVMTypeRef t = LLVMTypeOf(i); const auto &L = leaves(t); x.n = (int)L.size(); x.w = width(t); x.sw = 0; x.fp = !L.empty() && L[0].fp; x.sfp = false; x.dst = x.n ? reg[i] : -1; x.lv_ = i; x.callee = 0; x.line = (int)LLVMGetDebugLocLine(i);
            int no = LLVMGetNumOperands(i);
            switch (op) {
            case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem:
                x.op = I_BIN; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; if (LLVMGetTypeKind(t) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) == 128) x.op = I_BAD; break;
            case LLVMFNeg: x.op = I_FNEG; x.o = {opnd(LLVMGetOperand(i, 0))}; break;
            case LLVMICmp: x.op = I_CMP; x.sub = LLVMGetICmpPredicate(i); x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; x.sw = width(LLVMTypeOf(LLVMGetOperand(i, 0))); break;
            case LLVMFCmp: x.op = I_FCMP; x.sub = LLVMGetFCmpPredicate(i); x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; x.sw = width(LLVMTypeOf(LLVMGetOperand(i, 0))); break;
            case LLVMBr: if (LLVMIsConditional(i)) { x.op = I_CONDBR; x.o = {opnd(LLVMGetCondition(i))}; for (int k = 0; k < 2; k++) { auto s = LLVMGetSuccessor(i, k); x.tgt.push_back(bbi[s]); x.phi.push_back(phis(s)); } } else { x.op = I_BR; auto s = LLVMGetSuccessor(i, 0); x.tgt.push_back(bbi[s]); x.phi.push_back(phis(s)); } break;
            case LLVMSwitch: { x.op = I_SWITCH; x.o = {opnd(LLVMGetOperand(i, 0))}; x.sw = width(LLVMTypeOf(LLVMGetOperand(i, 0))); auto s = LLVMGetSwitchDefaultDest(i); x.tgt.push_back(bbi[s]); x.phi.push_back(phis(s)); for (int k = 2; k < no; k += 2) { x.k.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, k))); auto d = LLVMValueAsBasicBlock(LLVMGetOperand(i, k + 1)); x.tgt.push_back(bbi[d]); x.phi.push_back(phis(d)); } break; }
            case LLVMRet: x.op = I_RET; if (no) { x.o = {opnd(LLVMGetOperand(i, 0))}; x.n = (int)leaves(LLVMTypeOf(LLVMGetOperand(i, 0))).size(); } break;
            case LLVMUnreachable: x.op = I_UNREACH; break;
            case LLVMLoad: x.op = I_LOAD; x.o = {opnd(LLVMGetOperand(i, 0))}; x.lv = L; x.sub = LLVMGetVolatile(i); if (LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) x.sub |= 2; break;
            case LLVMStore: x.op = I_STORE; x.o = {opnd(LLVMGetOperand(i, 1)), opnd(LLVMGetOperand(i, 0))}; x.lv = leaves(LLVMTypeOf(LLVMGetOperand(i, 0))); x.sub = LLVMGetVolatile(i); if (LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) x.sub |= 2; break;
            case LLVMGetElementPtr: {
                x.op = I_GEP; x.o = {opnd(LLVMGetOperand(i, 0))}; LLVMTypeRef ty = LLVMGetGEPSourceElementType(i); u64 c = 0; x.k.push_back(0);
                for (int k = 1; k < no; k++) { LLVMValueRef iv = LLVMGetOperand(i, k); int iw = width(LLVMTypeOf(iv)); u64 sc;
                    if (k > 1 && LLVMGetTypeKind(ty) == LLVMStructTypeKind) { unsigned ix = (unsigned)LLVMConstIntGetZExtValue(iv); c += LLVMOffsetOfElement(TD, ty, ix); ty = LLVMStructGetTypeAtIndex(ty, ix); continue; }
                    if (k > 1) ty = LLVMGetElementType(ty); sc = LLVMABISizeOfType(TD, ty);
                    if (LLVMIsAConstantInt(iv)) c += (u64)sx(LLVMConstIntGetZExtValue(iv), iw) * sc; else { x.o.push_back(opnd(iv)); x.k.push_back(sc); x.k.push_back(iw); } }
                x.k[0] = c; break; }
            case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: case LLVMPtrToInt: case LLVMIntToPtr:
                x.op = I_CAST; x.o = {opnd(LLVMGetOperand(i, 0))}; x.sw = width(LLVMTypeOf(LLVMGetOperand(i, 0))); if (LLVMGetTypeKind(t) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) == 128) x.op = I_BAD; break;
            case LLVMBitCast: { x.op = I_CAST; x.o = {opnd(LLVMGetOperand(i, 0))}; x.lv = leaves(LLVMTypeOf(LLVMGetOperand(i, 0))); x.sw = x.lv[0].w; x.sub = LLVMBitCast; for (auto &l : L) x.k.push_back(l.w); break; }
            case LLVMFreeze: x.op = I_COPY; x.o = {opnd(LLVMGetOperand(i, 0))}; break;
            case LLVMSelect: x.op = I_SELECT; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1)), opnd(LLVMGetOperand(i, 2))}; x.lv = L; x.sw = (int)leaves(LLVMTypeOf(LLVMGetOperand(i, 0))).size(); break;
            case LLVMAlloca: { x.op = I_ALLOCA; x.o = {opnd(LLVMGetOperand(i, 0))}; x.k = {LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)), (u64)LLVMGetAlignment(i)}; size_t l; x.name = LLVMGetValueName2(i, &l); x.name = f->name + "::" + x.name; break; }
            case LLVMExtractValue: case LLVMInsertValue: {
                bool ins = op == LLVMInsertValue; LLVMTypeRef ty = LLVMTypeOf(LLVMGetOperand(i, 0)); int off = 0; unsigned ni = LLVMGetNumIndices(i); const unsigned *ix = LLVMGetIndices(i);
                for (unsigned k = 0; k < ni; k++) { if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) off += (int)leaves(LLVMStructGetTypeAtIndex(ty, q)).size(); ty = LLVMStructGetTypeAtIndex(ty, ix[k]); } else { ty = LLVMGetElementType(ty); off += (int)(ix[k] * leaves(ty).size()); } }
                x.op = ins ? I_INSERT : I_EXTRACT; x.o = {opnd(LLVMGetOperand(i, 0))}; if (ins) x.o.push_back(opnd(LLVMGetOperand(i, 1))); x.k = {(u64)off, leaves(ty).size()}; break; }
            case LLVMExtractElement: x.op = I_EXTELT; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; break;
            case LLVMInsertElement: x.op = I_INSELT; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1)), opnd(LLVMGetOperand(i, 2))}; break;
            case LLVMShuffleVector: { x.op = I_SHUFFLE; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; x.sw = (int)leaves(LLVMTypeOf(LLVMGetOperand(i, 0))).size(); for (unsigned k = 0; k < LLVMGetNumMaskElements(i); k++) x.k.push_back((u64)(i64)LLVMGetMaskValue(i, k)); break; }
            case LLVMAtomicRMW: x.op = I_RMW; x.sub = LLVMGetAtomicRMWBinOp(i); x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; break;
            case LLVMAtomicCmpXchg: x.op = I_CMPXCHG; x.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1)), opnd(LLVMGetOperand(i, 2))}; x.sw = width(LLVMTypeOf(LLVMGetOperand(i, 1))); break;
            case LLVMFence: x.op = I_FENCE; break;
            case LLVMCall: {
                x.op = I_CALL; LLVMValueRef cv = LLVMGetCalledValue(i); int na = (int)LLVMGetNumArgOperands(i); unsigned bk = LLVMGetEnumAttributeKindForName("byval", 5);
                for (int k = 0; k < na; k++) { LLVMValueRef a = LLVMGetOperand(i, k); if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) { x.o.clear(); break; } x.o.push_back(opnd(a)); x.k.push_back(leaves(LLVMTypeOf(a)).size()); x.lv.insert(x.lv.end(), leaves(LLVMTypeOf(a)).begin(), leaves(LLVMTypeOf(a)).end());
                    LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, k + 1, bk); x.byval.push_back(at ? LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0); }
                if (LLVMIsAInlineAsm(cv)) { size_t l; const char *s = LLVMGetInlineAsmAsmString(cv, &l); x.asmstr.assign(s, l); s = LLVMGetInlineAsmConstraintString(cv, &l); x.asmcon.assign(s, l); x.sub = -2; }
                else if (LLVMIsAFunction(cv)) { x.callee = getfunc(cv); x.sub = 0; if (x.callee->builtin == B_NOP) continue; }
                else { x.sub = -1; x.o.push_back(opnd(cv)); }
                break; }
            default: x.op = I_BAD; break;
            }
            if (x.op == I_BAD) { char *s = LLVMPrintValueToString(i); x.name = s; LLVMDisposeMessage(s); }
            f->bb[bi].push_back(std::move(x));
        }
    }
}

// ------------------------------------------------------------------ execution
static inline Val get(Frame &f, const Opnd &o, int k = 0) { return o.reg >= 0 ? f.r[o.reg + k] : C(o.c[k]); }
static void jump(Frame &f, Inst &x, int t) {
    auto &ph = x.phi[t]; static vector<Val> tmp; tmp.clear(); for (auto &p : ph) for (int k = 0; k < p.n; k++) tmp.push_back(get(f, p.src, k));
    size_t q = 0; for (auto &p : ph) for (int k = 0; k < p.n; k++) f.r[p.dst + k] = tmp[q++];
    f.prev = f.bb; f.bb = x.tgt[t]; f.ip = 0;
}
static void enter(Thr &T, Func *fn, const vector<Val> &args, const vector<int> &aw, size_t nfix) {
    if (!fn->ready) translate(fn); fn->seen = true; if (T.st.size() > 400) fail("call depth limit (unbounded recursion?) in " + fn->name);
    T.st.emplace_back(); Frame &f = T.st.back(); f.f = fn; f.bb = 0; f.ip = 0; f.prev = -1; f.r.assign(fn->nregs, C(0)); size_t q = 0; (void)nfix;
    for (auto &p : fn->params) for (int k = 0; k < p.second; k++) { if (q < args.size()) f.r[p.first + k] = args[q]; q++; }
    for (; q < args.size(); q++) { f.va.push_back(args[q]); f.vaw.push_back(aw[q]); }
}
static void popframe(Thr &T) { Frame &f = T.st.back(); for (u64 a : f.al) freeobj(a); T.st.pop_back(); }
static Val binop(int op, int w, Val a, Val b) {
    K k; switch (op) { case LLVMAdd: k = KADD; break; case LLVMSub: k = KSUB; break; case LLVMMul: k = KMUL; break; case LLVMUDiv: k = KUDIV; break; case LLVMSDiv: k = KSDIV; break; case LLVMURem: k = KUREM; break; case LLVMSRem: k = KSREM; break; case LLVMShl: k = KSHL; break; case LLVMLShr: k = KLSHR; break; case LLVMAShr: k = KASHR; break; case LLVMAnd: k = KAND; break; case LLVMOr: k = KOR; break; case LLVMXor: k = KXOR; break; case LLVMFAdd: k = KFADD; break; case LLVMFSub: k = KFSUB; break; case LLVMFMul: k = KFMUL; break; case LLVMFDiv: k = KFDIV; break; default: k = KFREM; }
    if (k == KUDIV || k == KSDIV || k == KUREM || k == KSREM) { if (!b.e) { if (!(b.c & mask(w))) fail("division by zero"); } else require(mknot(mkbin(KEQ, b.e, mkc(0, w))), "division by zero", "memory"); }
    if (k == KSHL || k == KLSHR || k == KASHR) { if (!b.e) b.c &= (w == 64 ? 63 : w == 32 ? 31 : 255); else b = V(mkbin(KAND, b.e, mkc(w >= 64 ? 63 : w == 32 ? 31 : mask(w), w))); }   // x86 masks the count
    if (!a.e && !b.e) return C(fold(k, w, w, a.c & mask(w), b.c & mask(w), 0));
    if (k == KFREM) throw Kill{"symbolic frem"};
    return V(mkbin(k, X(a, w), X(b, w)));
}
static Val cmp(int p, int w, Val a, Val b) {
    // identical symbolic operands: rewriting would decide this; leave the first ones of each process to the solver
    static int nofold = 300; if (a.e && a.e == b.e && (p == LLVMIntEQ || p == LLVMIntNE) && nofold > 0) { nofold--; Expr *r = mk(KEQ, 1, 0, a.e, b.e, 0); return {0, p == LLVMIntEQ ? r : mknot(r)}; }
    auto E = [&](K k, Val x, Val y) { if (!x.e && !y.e) return C(fold(k, 1, w, x.c & mask(w), y.c & mask(w), 0)); return V(mkbin(k, X(x, w), X(y, w))); };
    auto N = [&](Val x) { return x.e ? V(mknot(x.e)) : C(!x.c); };
    switch (p) { case LLVMIntEQ: return E(KEQ, a, b); case LLVMIntNE: return N(E(KEQ, a, b)); case LLVMIntULT: return E(KULT, a, b); case LLVMIntULE: return E(KULE, a, b); case LLVMIntUGT: return E(KULT, b, a); case LLVMIntUGE: return E(KULE, b, a); case LLVMIntSLT: return E(KSLT, a, b); case LLVMIntSLE: return E(KSLE, a, b); case LLVMIntSGT: return E(KSLT, b, a); default: return E(KSLE, b, a); }
}
static Val fcmp(int p, int w, Val a, Val b) {
    auto E = [&](K k, Val x, Val y) { if (!x.e && !y.e) return mkc(fold(k, 1, w, x.c, y.c, 0), 1); return mk(k, 1, 0, X(x, w), X(y, w), 0); };
    Expr *r; Expr *un = E(KFUNO, a, b);
    switch (p) {
    case LLVMRealPredicateFalse: return C(0); case LLVMRealPredicateTrue: return C(1); case LLVMRealORD: r = mknot(un); break; case LLVMRealUNO: r = un; break;
    case LLVMRealOEQ: r = E(KFEQ, a, b); break; case LLVMRealUNE: r = mknot(E(KFEQ, a, b)); break; case LLVMRealOLT: r = E(KFLT, a, b); break; case LLVMRealOLE: r = E(KFLE, a, b); break; case LLVMRealOGT: r = E(KFLT, b, a); break; case LLVMRealOGE: r = E(KFLE, b, a); break;
    case LLVMRealUEQ: r = mkbin(KOR, un, E(KFEQ, a, b)); break; case LLVMRealONE: r = mknot(mkbin(KOR, un, E(KFEQ, a, b))); break; case LLVMRealULT: r = mknot(E(KFLE, b, a)); break; case LLVMRealULE: r = mknot(E(KFLT, b, a)); break; case LLVMRealUGT: r = mknot(E(KFLE, a, b)); break; default: r = mknot(E(KFLT, a, b)); break;
    }
    return V(r);
}
static Val cast1(int op, int sw, int w, Val a) {
    K k; switch (op) {
    case LLVMTrunc: if (!a.e) return C(a.c & mask(w)); return V(mkextract(a.e, 0, w));
    case LLVMZExt: if (!a.e) return C(a.c & mask(sw)); return V(mkzext(a.e, w));
    case LLVMSExt: if (!a.e) return C((u64)sx(a.c & mask(sw), sw) & mask(w)); return V(mksext(a.e, w));
    case LLVMPtrToInt: if (w < 64) { if (!a.e) return C(a.c & mask(w)); return V(mkextract(a.e, 0, w)); } return a;
    case LLVMIntToPtr: if (sw < 64) { if (!a.e) return a; return V(mkzext(a.e, 64)); } return a;
    case LLVMFPToUI: k = KF2U; break; case LLVMFPToSI: k = KF2S; break; case LLVMUIToFP: k = KU2F; break; case LLVMSIToFP: k = KS2F; break; case LLVMFPTrunc: k = KFTRUNC; break; default: k = KFEXT; break; }
    if (!a.e) return C(fold(k, w, sw, a.c & mask(sw), 0, 0));
    return V(mkun(k, w, a.e));
}
static Val fresh(int w) { u32 id = (u32)st->model.size(); if (g_varw.size() <= id) g_varw.resize(id + 1, 0); 
    // variable identity = (position, width): widths at the same position may differ between paths -> separate ids per width via offset search
    while (g_varw[id] && g_varw[id] != w) { st->model.push_back(0); st->dom.push_back({~0ull, ~0ull, ~0ull, ~0ull}); st->multi.push_back(0); st->fixd.push_back(0); id++; if (g_varw.size() <= id) g_varw.resize(id + 1, 0); }
    g_varw[id] = (u8)w; st->model.push_back(0); st->dom.push_back({~0ull, ~0ull, ~0ull, ~0ull}); st->multi.push_back(0); st->fixd.push_back(0); st->inputs.push_back({(int)id, 0}); return {0, mk(KVAR, w, id, 0, 0, 0)}; }
static string cstr(u64 p) { string r; for (int i = 0; i < 300; i++) { Obj *o = find(st, p + i, false); if (!o || p + i - o->base >= o->size) break; Val b = ldbyte(o, p + i - o->base); if (b.e) { r += '?'; continue; } if (!b.c) break; r += (char)b.c; } return r; }
// schedules are lists of (scheduling point, thread) pairs; every scheduling point is counted so that the native replay can follow them
static void togo(State *n, int t) { n->cur = t; n->sched.push_back((int)n->yp); n->sched.push_back(t); n->th[t].spin = 0; }
static void wake() { if (st->dirty) { for (auto &t : st->th) { t.waiting = false; t.spin = 0; } st->dirty = false; st->idle = 0; } }
// states that were already explored from the same point (same memory, threads, path condition and preemptions left) are not explored again.
// 64-bit fingerprints in a table all processes share.
static u64 *vtab; static const u64 VT = 1ull << 25; static bool O_merge = true;
static inline void hx(u64 &h, u64 v) { h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
static inline void hv(u64 &h, const Val &v) { hx(h, v.e ? v.e->sh : v.c); hx(h, v.e != 0); }
static u64 fingerprint(const State *s) {
    u64 h = 0x1234567; hx(h, s->cur); if (O_preempt < 1000) hx(h, s->preempts); hx(h, s->idle); hx(h, s->dirty); hx(h, s->bump); hx(h, s->nlive); hx(h, s->th.size());
    for (auto &t : s->th) { hx(h, t.done * 2 + t.waiting); hx(h, t.spin); hx(h, t.ret); hx(h, t.st.size()); for (auto &f : t.st) { hx(h, (u64)(uintptr_t)f.f); hx(h, ((u64)f.bb << 32) ^ (u64)f.ip ^ ((u64)f.prev << 48)); hx(h, f.as.on ? f.as.pc * 2 + f.as.zf + 7 : 1); if (f.as.on) for (auto &v : f.as.r) hv(h, v); for (auto &v : f.r) hv(h, v); for (u64 a : f.al) hx(h, a); for (auto &v : f.va) hv(h, v); hx(h, f.callret); } }
    for (size_t i = 0; i < s->mem.size(); i++) { const ObjP &o = s->mem[i]; if (i < ginit.size() && o == ginit[i]) continue; hx(h, o->base); hx(h, o->size); const u8 *b = o->b.data(); size_t n = o->b.size(); for (; n >= 8; n -= 8, b += 8) { u64 w; memcpy(&w, b, 8); hx(h, w); } for (; n; n--) hx(h, *b++); for (size_t k = 0; k < o->s.size(); k++) if (o->s[k]) { hx(h, k); hx(h, o->s[k]->sh); } }
    for (auto &r : s->shared) { hx(h, r.first); hx(h, r.second); } hx(h, s->model.size()); for (auto &i : s->inputs) { hx(h, (u64)i.first); hx(h, i.second); } u64 q = 0; for (Expr *e : s->pc) q += e->sh * 0x9E3779B97F4A7C15ull; hx(h, q); hx(h, s->pc.size()); return h ? h : 1;
}
static bool visited() {
    if (!O_merge) return false; u64 h = fingerprint(st); for (u64 i = h & (VT - 1), k = 0; k < 64; k++, i = (i + 1) & (VT - 1)) { u64 o = __atomic_load_n(&vtab[i], __ATOMIC_RELAXED); if (o == h) return true; if (!o) { u64 z = 0; if (__atomic_compare_exchange_n(&vtab[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { ADD(seen, 1); return false; } if (z == h) return true; } } return false;
}
// scheduling point: the running thread may continue, or (within the preemption bound) any other runnable one. A voluntary yield hands over to
// another runnable thread if there is one (after -spin further rounds); threads that wait are woken by writes to shared memory.
static void yieldpoint(bool voluntary) {
    auto &T = st->th; if (T.size() < 2) return; st->yp++; wake(); if (visited()) throw Kill{"merged"};
    if (voluntary) {
        if (++st->idle > 40 + 12 * (int)T.size()) fail("no progress: every thread spins or waits");
        vector<int> c; for (size_t i = 1; i < T.size(); i++) { int t = (st->cur + (int)i) % (int)T.size(); if (!T[t].done && !T[t].waiting) c.push_back(t); } if (c.empty()) return;
        bool stay = T[st->cur].spin < O_spin; T[st->cur].spin++; if (st->idle > 12 + 4 * (int)T.size()) { togo(st, c[0]); return; }      // an idle stretch goes round in turn
        for (size_t k = stay ? 0 : 1; k < c.size(); k++) { SP n = clone(st); togo(n.get(), c[k]); work.push_back(std::move(n)); ADD(schedules, 1); }
        if (!stay) togo(st, c[0]); return;
    }
    if (st->preempts >= O_preempt) return;
    for (size_t i = 0; i < T.size(); i++) if ((int)i != st->cur && !T[i].done && !T[i].waiting) { SP n = clone(st); togo(n.get(), (int)i); n->preempts++; work.push_back(std::move(n)); ADD(schedules, 1); }
}
static void reschedule() {   // current thread cannot continue
    auto &T = st->th; st->yp++; vector<int> c; for (size_t i = 0; i < T.size(); i++) if (!T[i].done && !T[i].waiting) c.push_back((int)i);
    if (c.empty()) { fail("deadlock: no thread can make progress"); }
    for (size_t i = 1; i < c.size(); i++) { SP n = clone(st); togo(n.get(), c[i]); work.push_back(std::move(n)); ADD(schedules, 1); }
    togo(st, c[0]);
}
static void copybytes(u64 d, u64 s, u64 n) {
    if (!n) return; Obj *so, *dobj; u64 soff = resolve(C(s), n, false, so, "read"); vector<u8> tb(so->b.begin() + soff, so->b.begin() + soff + n); vector<Expr *> ts; if (!so->s.empty()) ts.assign(so->s.begin() + soff, so->s.begin() + soff + n);
    u64 doff = resolve(C(d), n, true, dobj, "write"); memcpy(&dobj->b[doff], tb.data(), n);
    if (st->th.size() > 1 && dobj->kind != 0) st->dirty = true;
    bool any = false; for (Expr *e : ts) if (e) { any = true; break; }
    if (any && dobj->s.empty()) dobj->s.assign(dobj->size, 0);
    if (!dobj->s.empty()) for (u64 i = 0; i < n; i++) dobj->s[doff + i] = any ? ts[i] : 0;
}
static void setres(Frame &f, Inst &x, Val v) { if (x.dst >= 0) f.r[x.dst] = v; }
static bool hit_atomic(Inst &x);
static void inlineasm(Frame &f, Inst &x) {
    string a = x.asmstr; for (auto &c : a) c = (char)tolower(c);
    auto has = [&](const char *s) { return a.find(s) != string::npos; };
    // split constraints and map: outputs first, then inputs (incl. indirect/tied); arguments follow the order of inputs
    vector<string> cs; { string cur; int br = 0; for (char c : x.asmcon) { if (c == '{') br++; if (c == '}') br--; if (c == ',' && !br) { cs.push_back(cur); cur.clear(); } else cur += c; } cs.push_back(cur); }
    int ai = 0, oi = 0; struct A { bool out, mem; Val v; int w; int oidx; }; vector<A> args; int li = 0;
    for (auto &c : cs) { if (c[0] == '~') continue; bool out = c[0] == '='; bool ind = c.find('*') != string::npos; A r; r.out = out; r.mem = ind; r.v = C(0); r.w = 64; r.oidx = -1;
        if (out && !ind) { r.oidx = oi++; } else { r.v = get(f, x.o[ai]); r.w = x.lv[li].w; li++; ai++; } args.push_back(r); }
    auto argn = [&](size_t pos) -> int { // the $N following position
        size_t p = a.find('$', pos); if (p == string::npos) return -1; p++; if (a[p] == '{') p++; return atoi(a.c_str() + p); };
    auto memw = [&](size_t pos) { char suf = a[pos]; return suf == 'q' ? 64 : suf == 'l' ? 32 : suf == 'w' ? 16 : 8; };
    if (a.empty() || has("mfence") || has("lfence") || has("sfence") || has("nop") || a.find_first_not_of(" \t\n;") == string::npos) { f.ip++; if (!a.empty()) yieldpoint(false); return; }
    if (has("pause") || has("rep; nop")) { f.ip++; yieldpoint(true); return; }
    // a small interpreter: one line at a time, operands $N with tied inputs; an unlocked read-modify-write is a read and a write that others may come between
    struct Ln { string op; vector<string> o; char suf; bool lock; string label; }; static std::map<string, vector<Ln>> cache; auto it = cache.find(a);
    if (it == cache.end()) { vector<Ln> v; string cur; vector<string> raw; for (char c : a) { if (c == '\n' || c == ';') { raw.push_back(cur); cur.clear(); } else cur += c == '\t' ? ' ' : c; } raw.push_back(cur); bool lock = false;
        for (auto &l : raw) { size_t q = l.find_first_not_of(' '); if (q == string::npos) continue; l = l.substr(q); Ln n; n.lock = lock; n.suf = 0; size_t c = l.find(':'); if (c != string::npos && c < 4 && isdigit((unsigned char)l[0])) { n.label = l.substr(0, c); l = l.substr(c + 1); q = l.find_first_not_of(' '); l = q == string::npos ? "" : l.substr(q); }
            if (l.compare(0, 4, "lock") == 0 && (l.size() == 4 || l[4] == ' ')) { l = l.substr(4); q = l.find_first_not_of(' '); if (q == string::npos) { if (!n.label.empty()) throw Kill{"asm: " + a}; lock = true; continue; } l = l.substr(q); n.lock = true; }
            q = l.find(' '); n.op = l.substr(0, q); string rest = q == string::npos ? "" : l.substr(q); int dep = 0; string t; for (char ch : rest) { if (ch == '{' || ch == '(') dep++; if (ch == '}' || ch == ')') dep--; if (ch == ',' && !dep) { n.o.push_back(t); t.clear(); } else if (ch != ' ') t += ch; } if (!t.empty()) n.o.push_back(t); v.push_back(n); lock = false; }
        it = cache.insert({a, v}).first; }
    auto &L = it->second; AsmSt &S_ = f.as; int na_ = (int)args.size();
    if (!S_.on) { S_.on = true; S_.pc = 0; S_.zf = false; S_.r.assign(na_, C(0)); vector<string> k; for (auto &c : cs) if (c[0] != '~') k.push_back(c);
        for (int i = 0; i < na_; i++) if (!args[i].out && !args[i].mem) { int to = i; S_.r[i] = args[i].v; if (isdigit((unsigned char)k[i][0])) to = atoi(k[i].c_str()); else if (k[i][0] == '{') for (int q = 0; q < na_; q++) if (args[q].out && k[q].find(k[i]) != string::npos && k[q].find('&') == string::npos) to = q; S_.r[to] = args[i].v; } }
    int ax = -1, axin = -1; { int i = 0; for (auto &c : cs) { if (c[0] == '~') continue; if (c.find("{ax}") != string::npos || c == "=a" || c == "=&a") { if (c[0] == '=') ax = i; else axin = i; } i++; } } if (ax < 0) ax = axin;
    auto fin = [&]() { for (int i = 0; i < na_; i++) if (args[i].out && !args[i].mem && x.dst >= 0) { Val v = S_.r[i]; f.r[x.dst + args[i].oidx] = v; } S_.on = false; S_.r.clear(); f.ip++; };
    auto sized = [&](Val v, int w) { if (v.e) return v.e->w > w ? V(mkextract(v.e, 0, w)) : v; return C(v.c & mask(w)); };
    while (S_.pc < (int)L.size()) { Ln &n = L[S_.pc]; string op = n.op; if (op.empty()) { S_.pc++; continue; }
        auto num = [&](const string &o) { size_t q = o.find('$'); if (q == string::npos) throw Kill{"asm: " + a}; q++; if (o[q] == '{') q++; if (!isdigit((unsigned char)o[q])) throw Kill{"asm: " + a}; int k = atoi(o.c_str() + q); if (k >= na_) throw Kill{"asm: " + a}; return k; };
        if (op == "jne" || op == "jnz" || op == "je" || op == "jz" || op == "jmp") { bool t = op == "jmp" || ((op == "je" || op == "jz") == S_.zf); if (!t) { S_.pc++; continue; } string lab = n.o[0].substr(0, n.o[0].size() - 1); bool back = n.o[0].back() == 'b'; int to = -1; for (int i = 0; i < (int)L.size(); i++) if (L[i].label == lab && (back ? i <= S_.pc : i > S_.pc)) { to = i; if (!back) break; } if (to < 0) throw Kill{"asm: " + a}; S_.pc = to; continue; }
        if (op == "pause") { if (++S_.pc >= (int)L.size()) fin(); yieldpoint(true); return; } if (op == "mfence" || op == "lfence" || op == "sfence") { S_.pc++; continue; }
        int w = 0; static const char *two[] = {"mov", "and", "or", "xor", "add", "sub", "xchg", "xadd", "cmpxchg", 0}; string b; for (int i = 0; two[i]; i++) { string t = two[i]; if (op == t) { b = t; w = n.o.size() && n.o[0].find("${") == string::npos ? 0 : 0; } else if (op.size() == t.size() + 1 && op.compare(0, t.size(), t) == 0 && strchr("bwlq", op.back())) { b = t; w = op.back() == 'q' ? 64 : op.back() == 'l' ? 32 : op.back() == 'w' ? 16 : 8; } }
        if (b.empty() || n.o.size() != 2) throw Kill{"unmodelled asm: " + a}; int si = num(n.o[0]), di = num(n.o[1]);
        if (!w) { int q = -1; for (int i : {si, di}) if (!args[i].mem) q = i; if (q < 0) throw Kill{"asm: " + a}; w = args[q].out ? (x.n == 1 ? x.w : 32) : args[q].w; }
        bool m = args[si].mem || args[di].mem; auto rd = [&](int i) { return args[i].mem ? load(args[i].v, w) : sized(S_.r[i], w); }; auto wr = [&](int i, Val v) { if (args[i].mem) store(args[i].v, w, v); else S_.r[i] = v; };
        bool done = false;
        if (b == "mov") { wr(di, rd(si)); done = true; }
        else { bool atom = n.lock || b == "xchg" || !args[di].mem;       // xchg with memory locks by itself
            if (b == "xchg" && args[si].mem) std::swap(si, di);
            Val cur; if (!atom && S_.r.size() > (size_t)na_) { cur = S_.r[na_]; S_.r.resize(na_); } else { cur = rd(di); if (!atom) { S_.r.push_back(cur); yieldpoint(false); return; } }
            if (b == "cmpxchg") { if (ax < 0) throw Kill{"asm: " + a}; Val e = sized(S_.r[ax], w); bool eq = cur.e || e.e ? branch(mkbin(KEQ, X(cur, w), X(e, w))) : cur.c == e.c; if (eq) wr(di, rd(si)); else S_.r[ax] = cur; S_.zf = eq; }
            else if (b == "xchg") { Val in = rd(si); wr(di, in); wr(si, cur); }
            else if (b == "xadd") { Val in = rd(si); wr(di, binop(LLVMAdd, w, cur, in)); wr(si, cur); }
            else { Val in = rd(si); wr(di, binop(b == "and" ? LLVMAnd : b == "or" ? LLVMOr : b == "xor" ? LLVMXor : b == "add" ? LLVMAdd : LLVMSub, w, cur, in)); }
            done = true; }
        (void)done; S_.pc++; if (S_.pc >= (int)L.size()) fin(); if (m) { yieldpoint(false); return; } }
    if (S_.on) fin();
}
static void docall(Frame &f, Inst &x) {
    if (x.sub == -2) {
        // an atomic is a scheduling point of its own: handled by yielding right after it (before the next step)
        inlineasm(f, x); return; }
    Func *fn = x.callee;
    if (!fn) { u64 p = concretize(get(f, x.o.back()), 64); auto it = faddr.find(p); if (it == faddr.end()) fail("call through invalid function pointer: " + near(st, p)); fn = it->second; }
    size_t na = x.o.size() - (x.sub == -1 ? 1 : 0);
    auto A = [&](int i) { return get(f, x.o[i]); };
    int aw0 = x.lv.empty() ? 0 : x.lv[0].w;
    if (fn->defined) {
        vector<Val> args; vector<int> aw; int li = 0;
        for (size_t i = 0; i < na; i++) if (x.byval.size() > i && x.byval[i]) concretize(A((int)i), 64);
        for (size_t i = 0; i < na; i++) {
            if (x.byval.size() > i && x.byval[i]) { u64 src = concretize(A((int)i), 64); u64 d = alloc(x.byval[i], 16, 0, fn->name + "::byval"); copybytes(d, src, x.byval[i]); f.al.push_back(d); args.push_back(C(d)); aw.push_back(64); li++; continue; }
            for (u64 k = 0; k < x.k[i]; k++) { args.push_back(get(f, x.o[i], (int)k)); aw.push_back(x.lv[li++].w); } }
        f.ip++; enter(st->th[st->cur], fn, args, aw, fn->params.size()); return;
    }
    auto CZ = [&](int i) { return concretize(A(i), 64); };
    switch (fn->builtin) {
    case B_ND8: setres(f, x, fresh(8)); break; case B_ND16: setres(f, x, fresh(16)); break; case B_ND32: setres(f, x, fresh(32)); break; case B_ND64: setres(f, x, fresh(64)); break;
    case B_CHOOSE: { // scheduling-style choice recorded as an input but explored by forking
        Val v = fresh(8); setres(f, x, v); break; }
    case B_ASSUME: { Val c = A(0); Expr *e = c.e ? mknot(mkbin(KEQ, c.e, mkc(0, aw0))) : 0; if (!c.e) { if (!c.c) throw Kill{"assume"}; break; }
        if (!eval(e, st->model)) { vector<u64> m; R r = query(st, e, &m); if (r == SAT) st->model = m; else { if (r == UNK) ADD(timeouts, 1); throw Kill{"assume"}; } } constrain(st, e); break; }
    case B_CHECK: { Val c = A(0); Expr *e = c.e ? mknot(mkbin(KEQ, c.e, mkc(0, aw0))) : mkc(c.c != 0, 1); require(e, cstr(CZ(1)), "check"); break; }
    case B_REACHED: if (!st->reached) { st->reached = true; if (ADD(reached, 1) < (u64)O_samples) { string s = "{\"kind\":\"witness\",\"inputs\":["; auto t = testvals(st->model); for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string(t[i]); s += "],\"sched\":["; for (size_t i = 0; i < st->sched.size(); i++) s += (i ? "," : "") + std::to_string(st->sched[i]); put(s + "]}\n"); } } break;
    case B_MALLOC: { u64 n = CZ(0); if (n > (1u << 26)) { setres(f, x, C(0)); break; } setres(f, x, C(alloc(n, 16, 1, "malloc@" + std::to_string(x.line)))); break; }
    case B_CALLOC: { u64 n = CZ(0) * CZ(1); if (n > (1u << 26)) { setres(f, x, C(0)); break; } u64 p = alloc(n, 16, 1, "calloc"); Obj *o = find(st, p, true); std::fill(o->b.begin(), o->b.end(), 0); setres(f, x, C(p)); break; }
    case B_ALIGNED: { u64 al = CZ(0), n = CZ(1); if (!al || (al & (al - 1))) fail("aligned_alloc alignment"); if (n > (1u << 26)) { setres(f, x, C(0)); break; } setres(f, x, C(alloc(n, al, 1, "aligned_alloc"))); break; }
    case B_REALLOC: { u64 p = CZ(0), n = CZ(1); u64 q = alloc(n, 16, 1, "realloc"); if (p) { Obj *o = find(st, p, false); if (!o || o->base != p || o->kind != 1) fail("realloc of invalid pointer"); copybytes(q, p, std::min(n, o->size)); heapfree(p); } setres(f, x, C(q)); break; }
    case B_FREE: heapfree(CZ(0)); break;
    case B_MEMCPY: case B_MEMMOVE: { u64 n = CZ(2), d = CZ(0), s = CZ(1); if (fn->builtin == B_MEMCPY && n && d != s && d < s + n && s < d + n && fn->name[0] == 'm') fail("memcpy on overlapping ranges"); copybytes(d, s, n); setres(f, x, C(d)); break; }
    case B_MEMSET: { u64 n = CZ(2), d = CZ(0); Val v = A(1); if (v.e && v.e->w > 8) v = V(mkextract(v.e, 0, 8)); if (n) { Obj *o; u64 off = resolve(C(d), n, true, o, "write"); for (u64 i = 0; i < n; i++) stbyte(o, off + i, v.e ? v : C(v.c & 255)); } setres(f, x, C(d)); break; }
    case B_VASTART: { u64 ap = CZ(0); u64 n = f.va.size(); u64 area = alloc(n * 8 + 8, 16, 0, "varargs"); f.al.push_back(area); for (u64 i = 0; i < n; i++) { Val v = f.va[i]; if (v.e && v.e->w < 64) v = V(mkzext(v.e, 64)); store(C(area + i * 8), 64, v); } store(C(ap), 32, C(48)); store(C(ap + 4), 32, C(176)); store(C(ap + 8), 64, C(area)); store(C(ap + 16), 64, C(0)); break; }
    case B_VAEND: case B_NOP: case B_WRITABLE: break; case B_VACOPY: copybytes(CZ(0), CZ(1), 24); break;
    case B_FABS: for (int k = 0; k < x.n; k++) { Val v = get(f, x.o[0], k); f.r[x.dst + k] = v.e ? V(mkbin(KAND, v.e, mkc(mask(x.w - 1), x.w))) : C(v.c & mask(x.w - 1)); } break;
    case B_COPYSIGN: { Val a = A(0), b = A(1); u64 sb = 1ull << (x.w - 1); setres(f, x, V(mkbin(KOR, mkbin(KAND, X(a, x.w), mkc(sb - 1, x.w)), mkbin(KAND, X(b, x.w), mkc(sb, x.w))))); break; }
    case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: { Val v = A(0); int m = fn->builtin == B_FLOOR ? 0 : fn->builtin == B_CEIL ? 1 : fn->builtin == B_TRUNC ? 2 : fn->builtin == B_ROUND ? 3 : 4; setres(f, x, v.e ? V(mkun(KFROUND, x.w, v.e, m)) : C(fold(KFROUND, x.w, x.w, v.c, 0, m))); break; }
    case B_SQRT: { Val v = A(0); setres(f, x, v.e ? V(mkun(KFSQRT, x.w, v.e)) : C(fold(KFSQRT, x.w, x.w, v.c, 0, 0))); break; }
    case B_FMULADD: setres(f, x, binop(LLVMFAdd, x.w, binop(LLVMFMul, x.w, A(0), A(1)), A(2))); break;
    case B_TRAP: fail("trap (bounds check or assertion)"); break;
    case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: { Val a = A(0), b = A(1); Val c = cmp(fn->builtin == B_SMAX ? LLVMIntSGT : fn->builtin == B_SMIN ? LLVMIntSLT : fn->builtin == B_UMAX ? LLVMIntUGT : LLVMIntULT, x.w, a, b); setres(f, x, c.e ? V(mkite(c.e, X(a, x.w), X(b, x.w))) : c.c ? a : b); break; }
    case B_ABS: { Val a = A(0); Val c = cmp(LLVMIntSLT, x.w, a, C(0)); Val n = binop(LLVMSub, x.w, C(0), a); setres(f, x, c.e ? V(mkite(c.e, X(n, x.w), X(a, x.w))) : c.c ? n : a); break; }
    case B_CTPOP: { Val a = A(0); if (!a.e) { setres(f, x, C(__builtin_popcountll(a.c & mask(x.w)))); break; } Expr *s = mkc(0, x.w); for (int i = 0; i < x.w; i++) s = mkbin(KADD, s, mkzext(mkextract(a.e, i, 1), x.w)); setres(f, x, V(s)); break; }
    case B_BSWAP: { Val a = A(0); Expr *e = X(a, x.w); Expr *r = mkextract(e, 0, 8); for (int i = 8; i < x.w; i += 8) r = mkconcat(r, mkextract(e, i, 8)); setres(f, x, V(r)); break; }
    case B_CTLZ: case B_CTTZ: { Val a = A(0); Expr *e = X(a, x.w); Expr *r = mkc(x.w, x.w); for (int i = 0; i < x.w; i++) { int bit = fn->builtin == B_CTLZ ? i : x.w - 1 - i; r = mkite(mkextract(e, bit, 1), mkc(fn->builtin == B_CTLZ ? x.w - 1 - bit : bit, x.w), r); } setres(f, x, V(r)); break; }
    case B_FSHL: case B_FSHR: { bool l = fn->builtin == B_FSHL; Val a = A(0), b = A(1), c = binop(LLVMAnd, x.w, A(2), C(x.w - 1)), inv = binop(LLVMXor, x.w, c, C(x.w - 1)); /* widths are powers of two */
        setres(f, x, l ? binop(LLVMOr, x.w, binop(LLVMShl, x.w, a, c), binop(LLVMLShr, x.w, binop(LLVMLShr, x.w, b, C(1)), inv)) : binop(LLVMOr, x.w, binop(LLVMShl, x.w, binop(LLVMShl, x.w, a, C(1)), inv), binop(LLVMLShr, x.w, b, c))); break; }
    case B_BITREV: { Expr *e = X(A(0), x.w), *r = mkextract(e, 0, 1); for (int i = 1; i < x.w; i++) r = mkconcat(r, mkextract(e, i, 1)); setres(f, x, V(r)); break; }
    case B_OVF: { bool sg = fn->name[5] == 's'; string o = fn->name.substr(6, 3); auto kind = o == "add" ? LLVMAdd : o == "sub" ? LLVMSub : LLVMMul; Val a = A(0), b = A(1), r = binop(kind, x.w, a, b), ov;
        if (kind == LLVMMul) { if (a.e || b.e) { if (x.w > 32) throw Kill{"symbolic 64-bit multiplication with overflow"}; Expr *ea = X(a, x.w), *eb = X(b, x.w); int w2 = 2 * x.w; Expr *wd = mkbin(KMUL, sg ? mksext(ea, w2) : mkzext(ea, w2), sg ? mksext(eb, w2) : mkzext(eb, w2)); ov = cmp(LLVMIntNE, w2, V(wd), V(sg ? mksext(X(r, x.w), w2) : mkzext(X(r, x.w), w2))); }
            else if (sg) { __int128 sa = (long long)(a.c << (64 - x.w)) >> (64 - x.w), sb = (long long)(b.c << (64 - x.w)) >> (64 - x.w); long long rr = (long long)(r.c << (64 - x.w)) >> (64 - x.w); ov = C(sa * sb != (__int128)rr); }
            else ov = C((unsigned __int128)(a.c & mask(x.w)) * (b.c & mask(x.w)) != (unsigned __int128)(r.c & mask(x.w))); }
        else if (!sg) ov = kind == LLVMAdd ? cmp(LLVMIntULT, x.w, r, a) : cmp(LLVMIntULT, x.w, a, b);
        else { Val t = kind == LLVMAdd ? binop(LLVMAnd, x.w, binop(LLVMXor, x.w, a, r), binop(LLVMXor, x.w, b, r)) : binop(LLVMAnd, x.w, binop(LLVMXor, x.w, a, b), binop(LLVMXor, x.w, a, r)); ov = cmp(LLVMIntSLT, x.w, t, C(0)); }
        setres(f, x, r); f.r[x.dst + 1] = ov; break; }
    case B_USAT: { bool ad = fn->name.compare(5, 4, "uadd") == 0; Val a = A(0), b = A(1), r = binop(ad ? LLVMAdd : LLVMSub, x.w, a, b), c = ad ? cmp(LLVMIntULT, x.w, r, a) : cmp(LLVMIntULT, x.w, a, b), lim = C(ad ? mask(x.w) : 0); setres(f, x, c.e ? V(mkite(c.e, X(lim, x.w), X(r, x.w))) : c.c ? lim : r); break; }
    case B_FMINMAX: { Val a = A(0), b = A(1), c = fcmp(fn->name.compare(5, 6, "minnum") == 0 ? LLVMRealOLT : LLVMRealOGT, x.w, a, b), n = fcmp(LLVMRealUNO, x.w, b, b); Val r = c.e ? V(mkite(c.e, X(a, x.w), X(b, x.w))) : c.c ? a : b; r = n.e ? V(mkite(n.e, X(a, x.w), X(r, x.w))) : n.c ? a : r; setres(f, x, r); break; }
    case B_ISCONST: setres(f, x, C(0)); break; case B_OBJSIZE: setres(f, x, C(A(1).c ? 0 : mask(x.w))); break;
    case B_IDENT: setres(f, x, A(0)); break; case B_STACKSAVE: setres(f, x, C(0)); break;
    case B_TSPAWN: { u64 p = CZ(0); Val arg = A(1); auto it = faddr.find(p); if (it == faddr.end()) fail("thread entry is not a function"); int id = (int)st->th.size(); setres(f, x, C(id)); f.ip++; Thr T; T.done = T.waiting = false; T.ret = 0; T.spin = 0; st->th.push_back(T); enter(st->th.back(), it->second, {arg}, {64}, 1); yieldpoint(false); return; }
    case B_PAUSE: f.ip++; yieldpoint(true); return; case B_FENCE: f.ip++; yieldpoint(false); return;
    case B_YIELD: f.ip++; yieldpoint(A(0).c != 0); return;
    case B_SHARED: st->shared.push_back({CZ(0), CZ(0) + CZ(1)}); break;
    case B_BLOCK: f.ip++; wake(); st->th[st->cur].waiting = true; ADD(blocked, 1); reschedule(); return;
    case B_TID: setres(f, x, C(st->cur)); break;
    case B_TDONE: { u64 t = CZ(0); setres(f, x, C(t < st->th.size() && st->th[t].done)); break; }
    case B_ERRNO: { static u64 eo = 0; if (!eo) for (auto &o : st->mem) if (o->name == "errno") eo = o->base; setres(f, x, C(eo)); break; }
    case B_LIVE: setres(f, x, C(st->nlive)); break; case B_ISSYM: setres(f, x, C(A(0).e != 0)); break; case B_CONCRETE: setres(f, x, C(CZ(0))); break;
    case B_PRINT: if (O_trace) { fprintf(stderr, "[vpx] %s", cstr(CZ(0)).c_str()); if (na > 1) { Val v = A(1); if (v.e) fprintf(stderr, " sym(model %llu)", (unsigned long long)eval(v.e, st->model)); else fprintf(stderr, " %llu", (unsigned long long)v.c); } fprintf(stderr, "\n"); } break;
    case B_DOUBLEFN: { double r = 0; Val a = A(0), b = na > 1 ? A(1) : C(0); if (a.e || b.e) { string bn = fn->name; int id = -1; for (int q = 0; q < 13; q++) if (bn == g_fun[q].n || bn == string(g_fun[q].n) + "f") id = q; if (!O_real || id < 0) throw Kill{"symbolic libm call " + fn->name}; setres(f, x, V(mk(KFUN, x.w, (u64)id, X(a, x.w), g_fun[id].two ? X(b, x.w) : 0, 0))); break; } bool fl = x.w == 32; double p = fl ? asf(a.c) : asd(a.c), q = fl ? asf(b.c) : asd(b.c); const string &n = fn->name;
        auto is = [&](const char *s) { return n == s || n == string(s) + "f"; };
        if (is("sin")) r = sin(p); else if (is("cos")) r = cos(p); else if (is("tan")) r = tan(p); else if (is("pow")) r = pow(p, q); else if (is("exp")) r = exp(p); else if (is("log")) r = log(p); else if (is("log10")) r = log10(p); else if (is("fmod")) r = fmod(p, q); else if (is("atan2")) r = atan2(p, q); else if (is("acos")) r = acos(p); else if (is("asin")) r = asin(p); else if (is("atan")) r = atan(p); else if (is("exp2")) r = exp2(p); else if (is("log2")) r = log2(p); setres(f, x, C(fl ? fromf((float)r) : fromd(r))); break; }
    case B_EXIT: throw Kill{"exit"};
    default: throw Kill{"unmodelled external function " + fn->name};
    }
    f.ip++;
}
static bool done_thread() { // current thread's stack empty
    st->th[st->cur].done = true; for (auto &t : st->th) { t.waiting = false; t.spin = 0; } st->dirty = false; st->idle = 0;
    if (st->cur == 0) return true; reschedule(); return false;
}
// executes one instruction; returns false when the state has ended
static bool step() {
    Thr &T = st->th[st->cur]; Frame &f = T.st.back(); Inst &x = f.f->bb[f.bb][f.ip];
    switch (x.op) {
    case I_BIN: for (int k = 0; k < x.n; k++) f.r[x.dst + k] = binop(x.sub, x.w, get(f, x.o[0], k), get(f, x.o[1], k)); f.ip++; break;
    case I_FNEG: for (int k = 0; k < x.n; k++) { Val v = get(f, x.o[0], k); f.r[x.dst + k] = v.e ? V(mkbin(KXOR, v.e, mkc(1ull << (x.w - 1), x.w))) : C(v.c ^ (1ull << (x.w - 1))); } f.ip++; break;
    case I_CMP: for (int k = 0; k < x.n; k++) f.r[x.dst + k] = cmp(x.sub, x.sw, get(f, x.o[0], k), get(f, x.o[1], k)); f.ip++; break;
    case I_FCMP: for (int k = 0; k < x.n; k++) f.r[x.dst + k] = fcmp(x.sub, x.sw, get(f, x.o[0], k), get(f, x.o[1], k)); f.ip++; break;
    case I_BR: jump(f, x, 0); break;
    case I_CONDBR: { Val c = get(f, x.o[0]); bool t = c.e ? branch(c.e) : (c.c & 1); jump(f, x, t ? 0 : 1); break; }
    case I_SWITCH: {
        Val c = get(f, x.o[0]); 
        if (!c.e) { int t = 0; for (size_t i = 0; i < x.k.size(); i++) if (x.k[i] == c.c) { t = (int)i + 1; break; } jump(f, x, t); break; }
        u64 v = eval(c.e, st->model); int t = 0; for (size_t i = 0; i < x.k.size(); i++) if (x.k[i] == v) { t = (int)i + 1; break; }
        Expr *cond; if (t) cond = mkbin(KEQ, c.e, mkc(x.k[t - 1], x.sw)); else { cond = mkc(1, 1); for (u64 k : x.k) cond = mkbin(KAND, cond, mknot(mkbin(KEQ, c.e, mkc(k, x.sw)))); }
        branch(cond); jump(f, x, t); break; }
    case I_RET: {
        static vector<Val> rv; rv.clear(); for (int k = 0; k < x.n && !x.o.empty(); k++) rv.push_back(get(f, x.o[0], k));
        popframe(T); if (T.st.empty()) { return !done_thread(); }
        Frame &g = T.st.back(); Inst &cx = g.f->bb[g.bb][g.ip - 1]; if (cx.dst >= 0) for (size_t k = 0; k < rv.size() && (int)k < cx.n; k++) g.r[cx.dst + k] = rv[k];
        break; }
    case I_UNREACH: fail("reached code marked unreachable"); break;
    case I_LOAD: {
        Val a = get(f, x.o[0]); if (x.lv.size() == 1) f.r[x.dst] = load(a, x.lv[0].w); else for (size_t k = 0; k < x.lv.size(); k++) { Val p = x.lv[k].off ? binop(LLVMAdd, 64, a, C(x.lv[k].off)) : a; f.r[x.dst + k] = load(p, x.lv[k].w); }
        f.ip++; if (st->th.size() > 1 && !f.f->atomic && (x.sub || isshared(a))) yieldpoint(false); break; }
    case I_STORE: {
        Val a = get(f, x.o[0]); if (x.lv.size() > 1) a = C(concretize(a, 64)); for (size_t k = 0; k < x.lv.size(); k++) { Val p = x.lv[k].off ? binop(LLVMAdd, 64, a, C(x.lv[k].off)) : a; store(p, x.lv[k].w, get(f, x.o[1], (int)k)); }
        f.ip++; if (st->th.size() > 1 && !f.f->atomic && (x.sub || isshared(a))) yieldpoint(false); break; }
    case I_GEP: { Val p = get(f, x.o[0]); if (x.k[0]) p = binop(LLVMAdd, 64, p, C(x.k[0])); for (size_t i = 1; i < x.o.size(); i++) { Val ix = get(f, x.o[i]); int iw = (int)x.k[2 * i]; if (iw < 64) ix = cast1(LLVMSExt, iw, 64, ix); p = binop(LLVMAdd, 64, p, binop(LLVMMul, 64, ix, C(x.k[2 * i - 1]))); } f.r[x.dst] = p; f.ip++; break; }
    case I_CAST: 
        if (x.sub == LLVMBitCast) { if ((int)x.lv.size() == x.n && x.sw == x.w) for (int k = 0; k < x.n; k++) f.r[x.dst + k] = get(f, x.o[0], k);
            else if (x.n == 1) { Expr *e = X(get(f, x.o[0], 0), x.sw); for (size_t k = 1; k < x.lv.size(); k++) e = mkconcat(X(get(f, x.o[0], (int)k), x.sw), e); f.r[x.dst] = V(e); }
            else if (x.lv.size() == 1) { Expr *e = X(get(f, x.o[0], 0), x.sw); for (int k = 0; k < x.n; k++) f.r[x.dst + k] = V(mkextract(e, k * x.w, x.w)); }
            else throw Kill{"bitcast"}; }
        else for (int k = 0; k < x.n; k++) f.r[x.dst + k] = cast1(x.sub, x.sw, x.w, get(f, x.o[0], k)); f.ip++; break;
    case I_COPY: for (int k = 0; k < x.n; k++) f.r[x.dst + k] = get(f, x.o[0], k); f.ip++; break;
    case I_SELECT: for (int k = 0; k < x.n; k++) { Val c = get(f, x.o[0], x.sw > 1 ? k : 0), a = get(f, x.o[1], k), b = get(f, x.o[2], k); f.r[x.dst + k] = c.e ? V(mkite(c.e, X(a, x.lv[k].w), X(b, x.lv[k].w))) : (c.c & 1) ? a : b; } f.ip++; break;
    case I_ALLOCA: { u64 n = concretize(get(f, x.o[0]), 64); u64 p = alloc(x.k[0] * n, x.k[1], 0, x.name); f.al.push_back(p); f.r[x.dst] = C(p); f.ip++; break; }
    case I_EXTRACT: for (int k = 0; k < x.n; k++) f.r[x.dst + k] = get(f, x.o[0], (int)x.k[0] + k); f.ip++; break;
    case I_INSERT: { static vector<Val> t; t.clear(); for (int k = 0; k < x.n; k++) t.push_back(get(f, x.o[0], k)); for (u64 k = 0; k < x.k[1]; k++) t[x.k[0] + k] = get(f, x.o[1], (int)k); for (int k = 0; k < x.n; k++) f.r[x.dst + k] = t[k]; f.ip++; break; }
    case I_EXTELT: { u64 ix = concretize(get(f, x.o[1]), 64); f.r[x.dst] = get(f, x.o[0], (int)ix); f.ip++; break; }
    case I_INSELT: { u64 ix = concretize(get(f, x.o[2]), 64); static vector<Val> t; t.clear(); for (int k = 0; k < x.n; k++) t.push_back(get(f, x.o[0], k)); t[ix] = get(f, x.o[1]); for (int k = 0; k < x.n; k++) f.r[x.dst + k] = t[k]; f.ip++; break; }
    case I_SHUFFLE: { static vector<Val> t; t.clear(); for (int k = 0; k < x.n; k++) { i64 m = (i64)x.k[k]; t.push_back(m < 0 ? C(0) : m < x.sw ? get(f, x.o[0], (int)m) : get(f, x.o[1], (int)m - x.sw)); } for (int k = 0; k < x.n; k++) f.r[x.dst + k] = t[k]; f.ip++; break; }
    case I_CALL: docall(f, x); break;
    case I_RMW: { Val a = get(f, x.o[0]), v = get(f, x.o[1]); Val cur = load(a, x.w); Val n = v; switch (x.sub) { case LLVMAtomicRMWBinOpXchg: break; case LLVMAtomicRMWBinOpAdd: n = binop(LLVMAdd, x.w, cur, v); break; case LLVMAtomicRMWBinOpSub: n = binop(LLVMSub, x.w, cur, v); break; case LLVMAtomicRMWBinOpAnd: n = binop(LLVMAnd, x.w, cur, v); break; case LLVMAtomicRMWBinOpOr: n = binop(LLVMOr, x.w, cur, v); break; case LLVMAtomicRMWBinOpXor: n = binop(LLVMXor, x.w, cur, v); break; default: throw Kill{"rmw"}; } store(a, x.w, n); f.r[x.dst] = cur; f.ip++; yieldpoint(false); break; }
    case I_CMPXCHG: { Val a = get(f, x.o[0]), e = get(f, x.o[1]), n = get(f, x.o[2]); Val cur = load(a, x.sw); bool eq = cur.e || e.e ? branch(mkbin(KEQ, X(cur, x.sw), X(e, x.sw))) : cur.c == e.c; if (eq) store(a, x.sw, n); f.r[x.dst] = cur; f.r[x.dst + 1] = C(eq); f.ip++; yieldpoint(false); break; }
    case I_FENCE: f.ip++; yieldpoint(false); break;
    default: throw Kill{"unsupported instruction " + x.name};
    }
    return true;
}
static std::set<string> killset;
static void runstate(SP s) {
    st = s.get(); u64 n = 0;
    try {
        while (true) {
            if ((++n & 1023) == 0) { ADD(steps, 1024); if (S->stop) return; if ((n & 0xffff) == 0) checktime(); }
            if (++st->steps > O_steps) { report("step limit: path does not terminate within " + std::to_string(O_steps) + " instructions", st->model, "steps"); ADD(steplim, 1); return; }
            if (!step()) break;
        }
        ADD(paths, 1);
    } catch (Err &e) { ADD(paths, 1); report(e.msg, st->model, "memory"); }
    catch (Kill &k) { if (k.why == "assume") ADD(killed, 1); else if (k.why == "merged") ADD(merged, 1); else if (k.why == "error" || k.why == "exit") ADD(paths, 1); else { ADD(timeouts, 1); put("{\"kind\":\"unsupported\",\"msg\":\"" + esc(k.why) + "\",\"where\":\"" + esc(where()) + "\"}\n"); S->stop = 1; } }
    catch (std::bad_alloc &) { ADD(oomkill, 1); S->stop = 1; }
    ADD(steps, n & 1023);
}
static void flush() { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(50); S->solver_s += my_solver_s; __sync_lock_release(&S->lock); my_solver_s = 0;
    string s; for (auto &p : funcs) if (p.second->seen) s += "{\"kind\":\"fn\",\"name\":\"" + p.second->name + "\"}\n"; put(s); }
static void loop() {
    while (!work.empty() && !S->stop) {
        checktime();
        if (work.size() >= 2 && S->active < O_jobs) {
            int a = __sync_add_and_fetch(&S->active, 1);
            if (a > O_jobs) __sync_sub_and_fetch(&S->active, 1);
            else {
                pid_t p = fork();
                if (p == 0) { ADD(spawned, 1); size_t half = work.size() / 2; work.erase(work.begin() + half, work.end()); if (work.empty()) {} my_solver_s = 0; for (auto &q : funcs) q.second->seen = false; continue; }
                if (p < 0) __sync_sub_and_fetch(&S->active, 1);
                else work.erase(work.begin(), work.begin() + work.size() / 2);
            }
        }
        SP s = std::move(work.back()); work.pop_back(); runstate(std::move(s));
    }
    if (!work.empty() && !O_samples) {}
}
// native replay: every scheduling point of the executor becomes a call into the replay scheduler (lib/vpx_rt.c)
static void instrument(LLVMModuleRef M) {
    LLVMContextRef c = LLVMGetModuleContext(M); LLVMTypeRef vt = LLVMVoidTypeInContext(c), it = LLVMInt32TypeInContext(c), pt = LLVMPointerTypeInContext(c, 0); LLVMTypeRef f1 = LLVMFunctionType(vt, &it, 1, 0), f2 = LLVMFunctionType(vt, &pt, 1, 0);
    LLVMValueRef pf = LLVMAddFunction(M, "__vp_point", f1), mf = LLVMAddFunction(M, "__vp_mem", f2); LLVMBuilderRef B = LLVMCreateBuilderInContext(c);
    for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) if (!atomicfn(LLVMGetValueName(f))) for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) for (LLVMValueRef i = LLVMGetFirstInstruction(b), n; i; i = n) {
        n = LLVMGetNextInstruction(i); int kind = -1; LLVMValueRef mem = 0;
        switch (LLVMGetInstructionOpcode(i)) {
        case LLVMLoad: if (LLVMGetVolatile(i) || LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) kind = 0; else mem = LLVMGetOperand(i, 0); break;
        case LLVMStore: if (LLVMGetVolatile(i) || LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) kind = 0; else mem = LLVMGetOperand(i, 1); break;
        case LLVMAtomicRMW: case LLVMAtomicCmpXchg: case LLVMFence: kind = 0; break;
        case LLVMCall: { LLVMValueRef cv = LLVMGetCalledValue(i); if (LLVMIsAInlineAsm(cv)) { size_t l; const char *s = LLVMGetInlineAsmAsmString(cv, &l); string a(s, l); if (!a.empty()) kind = a.find("pause") != string::npos ? 1 : 0; }
            else if (LLVMIsAFunction(cv)) { string nm = LLVMGetValueName(cv); if (nm.find("llvm.x86.sse2.pause") == 0) kind = 1; else if (nm.find("llvm.x86.sse2.mfence") == 0 || nm.find("llvm.x86.sse2.lfence") == 0 || nm.find("llvm.x86.sse.sfence") == 0) kind = 0; } break; }
        default: break; }
        if ((kind < 0 && !mem) || !n) continue; LLVMPositionBuilderBefore(B, n);
        if (mem) { if (LLVMIsAAllocaInst(mem)) continue; LLVMBuildCall2(B, f2, mf, &mem, 1, ""); } else { LLVMValueRef k = LLVMConstInt(it, (u64)kind, 0); LLVMBuildCall2(B, f1, pf, &k, 1, ""); } }
}
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "-fptest")) return bbfp_test() ? 1 : 0;
    string bc, entry, emit, instr; vector<string> repl; for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "-j") O_jobs = atoi(nx().c_str()); else if (a == "-t") O_time = atof(nx().c_str()); else if (a == "-steps") O_steps = strtoull(nx().c_str(), 0, 10); else if (a == "-pb") O_preempt = atoi(nx().c_str()); else if (a == "-o") O_out = nx(); else if (a == "-maxerr") O_maxerr = atoi(nx().c_str()); else if (a == "-zms") O_zms = strtoull(nx().c_str(), 0, 10); else if (a == "-rd") O_rdlim = atoi(nx().c_str()); else if (a == "-v") O_trace = true; else if (a == "-real") O_real = atoi(nx().c_str()); else if (a == "-repl") repl.push_back(nx()); else if (a == "-spin") O_spin = atoi(nx().c_str()); else if (a == "-nomerge") O_merge = false; else if (a == "-instr") instr = nx(); else if (a == "-emit") emit = nx(); else if (bc.empty()) bc = a; else entry = a; }
    T0 = now(); TEND = T0 + O_time;
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->active = 1; vtab = (u64 *)mmap(0, VT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    errfd = open(O_out.empty() ? "/dev/stdout" : O_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    static const struct { const char *n; int b; } T[] = {{"__vpx_nd8", B_ND8}, {"__vpx_shared", B_SHARED}, {"__vpx_nd16", B_ND16}, {"__vpx_nd32", B_ND32}, {"__vpx_nd64", B_ND64}, {"__vpx_assume", B_ASSUME}, {"__vpx_check", B_CHECK}, {"__vpx_reached", B_REACHED}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"aligned_alloc", B_ALIGNED}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"__vpx_spawn", B_TSPAWN}, {"__vpx_yield", B_YIELD}, {"__vpx_block", B_BLOCK}, {"__vpx_tid", B_TID}, {"__vpx_done", B_TDONE}, {"__errno_location", B_ERRNO}, {"__vpx_live", B_LIVE}, {"__vpx_issym", B_ISSYM}, {"__vpx_concrete", B_CONCRETE}, {"__vpx_print", B_PRINT}, {"floor", B_FLOOR}, {"floorf", B_FLOOR}, {"ceil", B_CEIL}, {"ceilf", B_CEIL}, {"sqrt", B_SQRT}, {"sqrtf", B_SQRT}, {"fabs", B_FABS}, {"fabsf", B_FABS}, {"trunc", B_TRUNC}, {"truncf", B_TRUNC}, {"round", B_ROUND}, {"roundf", B_ROUND}, {"rint", B_RINT}, {"rintf", B_RINT}, {"abort", B_TRAP}, {"exit", B_EXIT}, {"_Exit", B_EXIT}, {"_exit", B_EXIT},
        {"sin", B_DOUBLEFN}, {"cos", B_DOUBLEFN}, {"tan", B_DOUBLEFN}, {"pow", B_DOUBLEFN}, {"exp", B_DOUBLEFN}, {"log", B_DOUBLEFN}, {"fmod", B_DOUBLEFN}, {"atan2", B_DOUBLEFN}, {"acos", B_DOUBLEFN}, {"asin", B_DOUBLEFN}, {"atan", B_DOUBLEFN}, {"log10", B_DOUBLEFN}, {"log2", B_DOUBLEFN}, {"exp2", B_DOUBLEFN}, {"sinf", B_DOUBLEFN}, {"cosf", B_DOUBLEFN}, {"tanf", B_DOUBLEFN}, {"powf", B_DOUBLEFN}, {"expf", B_DOUBLEFN}, {"logf", B_DOUBLEFN}, {"fmodf", B_DOUBLEFN}, {"atan2f", B_DOUBLEFN}, {"acosf", B_DOUBLEFN}, {"asinf", B_DOUBLEFN}, {"atanf", B_DOUBLEFN}, {"exp2f", B_DOUBLEFN}, {"log2f", B_DOUBLEFN}};
    for (auto &t : T) BI[t.n] = t.b;
    LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = 0;
    if (LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(), &mb, &err) || LLVMParseIRInContext(ctx, mb, &M, &err)) { fprintf(stderr, "vpx: %s\n", err); return 3; }
    TD = LLVMGetModuleDataLayout(M);
    for (auto &r : repl) { size_t c = r.find(':'); LLVMValueRef a = LLVMGetNamedFunction(M, r.substr(0, c).c_str()), b = LLVMGetNamedFunction(M, r.substr(c + 1).c_str()); if (!a || !b) { fprintf(stderr, "vpx: cannot replace %s\n", r.c_str()); if (!b) return 3; continue; } LLVMReplaceAllUsesWith(a, b); }
    if (!instr.empty()) { instrument(M); return LLVMWriteBitcodeToFile(M, instr.c_str()) ? 3 : 0; }
    if (!emit.empty()) return LLVMWriteBitcodeToFile(M, emit.c_str()) ? 3 : 0;
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "timeout", std::to_string(O_zms).c_str()); Z = Z3_mk_context(cfg); g_rm = Z3_mk_fpa_rne(Z); Z3_inc_ref(Z, g_rm); g_rtz = Z3_mk_fpa_rtz(Z); Z3_inc_ref(Z, g_rtz);
    zs_bv = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, zs_bv); zs_fp = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV")); Z3_solver_inc_ref(Z, zs_fp);
    if (O_real) rinit();
    // globals
    vector<LLVMValueRef> gs; for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) gs.push_back(g);
    vector<ObjP> go;
    for (auto g : gs) { size_t l; string n = LLVMGetValueName2(g, &l); LLVMTypeRef t = LLVMGlobalGetValueType(g); u64 al = LLVMGetAlignment(g); ObjP o = newobj(gbump, LLVMABISizeOfType(TD, t), al, 2, n); o->ro = LLVMIsGlobalConstant(g); gaddr[g] = o->base; go.push_back(o); }
    for (size_t i = 0; i < gs.size(); i++) { LLVMValueRef in = LLVMGetInitializer(gs[i]); if (in) cbytes(in, go[i]->b, 0); if (go[i]->ro) roobj.push_back(go[i]); else ginit.push_back(go[i]); }
    for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) getfunc(f);      // same function addresses in every process
    LLVMValueRef ev_ = LLVMGetNamedFunction(M, entry.c_str()); if (!ev_) { fprintf(stderr, "vpx: no function %s\n", entry.c_str()); return 3; }
    SP s(new State()); s->cur = 0; s->mem = ginit; { ObjP o = newobj(gbump, 8, 16, 2, "errno"); s->mem.push_back(o); } s->bump = (gbump + 0xfffffff) & ~0xfffffffull; s->steps = 0; s->preempts = 0; s->reached = false; s->nlive = 0; s->dead = false; s->yp = 0; s->dirty = false; s->idle = 0;
    st = s.get(); s->th.resize(1); s->th[0].done = s->th[0].waiting = false; s->th[0].spin = 0; enter(s->th[0], getfunc(ev_), {}, {}, 0);
    work.push_back(std::move(s));
    pid_t top = getpid(); loop(); flush(); bool left = !work.empty(); if (left) ADD(timeouts, 1);
    __sync_sub_and_fetch(&S->active, 1);
    if (getpid() != top) _exit(0);
    int bad = 0, stt; while (true) { pid_t p = waitpid(-1, &stt, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; }
    char buf[1500]; snprintf(buf, sizeof buf, "{\"kind\":\"summary\",\"complete\":%s,\"paths\":%llu,\"assume_killed\":%llu,\"forks\":%llu,\"queries\":%llu,\"z3_queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"domain_decisions\":%llu,\"steps\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"incomplete\":%llu,\"steplim\":%llu,\"errors\":%llu,\"reached\":%llu,\"procs\":%llu,\"crashed\":%d,\"schedules\":%llu,\"merged\":%llu,\"states\":%llu,\"solver_s\":%.3f,\"wall\":%.3f}\n",
        (!S->timeouts && !S->steplim && !bad && !S->oomkill && !S->stop) ? "true" : "false", (unsigned long long)S->paths, (unsigned long long)S->killed, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->zq, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunk, (unsigned long long)S->domq, (unsigned long long)S->steps, (unsigned long long)S->asserts, (unsigned long long)S->nontriv, (unsigned long long)S->timeouts, (unsigned long long)S->steplim, (unsigned long long)S->errs, (unsigned long long)S->reached, (unsigned long long)S->spawned, bad, (unsigned long long)S->schedules, (unsigned long long)S->merged, (unsigned long long)S->seen, S->solver_s, now() - T0);
    put(buf); return 0;
}
