// Arithmetic view of conditions that contain floating point: integers as Int, floating point as Real.
//  O_real = 1 (round): every operation yields some value within its rounding error of the exact result (and between the
//             neighbouring integers of it): an over-approximation of IEEE arithmetic on finite values, so UNSAT is sound;
//  O_real = 2 (exact): operations are those of the reals (algebraic identities; rounding is outside the claim).
// A satisfying assignment is only a candidate: it is replayed natively before it is reported.
#pragma once
static int O_real = 0;
static Z3_solver zs_re; static Z3_sort SI, SR;
struct Unsup { const char *w; };
static std::unordered_map<Expr *, Z3_ast> g_zi, g_zr, g_zbr; static std::unordered_map<Expr *, std::vector<Z3_ast>> g_side;
static Z3_ast rk(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast inum(const char *s) { return Z3_mk_numeral(Z, s, SI); }
static Z3_ast ipow(int w) { static Z3_ast t[130]; if (!t[w]) { std::string d = "1"; for (int i = 0; i < w; i++) { int cy = 0; for (int k = (int)d.size() - 1; k >= 0; k--) { int v = (d[k] - '0') * 2 + cy; d[k] = (char)('0' + v % 10); cy = v / 10; } if (cy) d = "1" + d; } t[w] = rk(inum(d.c_str())); } return t[w]; }
static Z3_ast iu(u64 v) { return Z3_mk_unsigned_int64(Z, v, SI); }
static Z3_ast zadd(Z3_ast a, Z3_ast b) { Z3_ast o[2] = {a, b}; return Z3_mk_add(Z, 2, o); }
static Z3_ast zsub(Z3_ast a, Z3_ast b) { Z3_ast o[2] = {a, b}; return Z3_mk_sub(Z, 2, o); }
static Z3_ast zmul(Z3_ast a, Z3_ast b) { Z3_ast o[2] = {a, b}; return Z3_mk_mul(Z, 2, o); }
static Z3_ast zimp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(Z, a, b); }
static Z3_ast rpow2(int e) { Z3_ast one = Z3_mk_real(Z, 1, 1), p = Z3_mk_int2real(Z, ipow(e < 0 ? -e : e)); return e < 0 ? Z3_mk_div(Z, one, p) : p; }
static Z3_ast rconst(double d) { if (!std::isfinite(d)) throw Unsup{"constant"}; int e; double m = frexp(d, &e); i64 n = (i64)ldexp(m, 53); e -= 53; while (n && !(n & 1)) { n /= 2; e++; } if (e > 120 || e < -1080) throw Unsup{"range"}; Z3_ast r = Z3_mk_int2real(Z, Z3_mk_int64(Z, n, SI)); if (!n) return Z3_mk_real(Z, 0, 1); while (e < -100) { r = Z3_mk_div(Z, r, rpow2(100)); e += 100; } Z3_ast p = rpow2(e); return Z3_simplify(Z, zmul(r, p)); }
static Z3_ast zbr(Expr *e); static Z3_ast zr(Expr *e);
// the bytes of a value whose sign bit was turned (1), cleared (2) or taken from another value (3), put together again
static int sview(Expr *e, Expr *&x, Expr *&y) {
    std::vector<Expr *> pc, stk{e}; while (!stk.empty()) { Expr *c = stk.back(); stk.pop_back(); if (c->k == KCONCAT) { stk.push_back(c->b); stk.push_back(c->a); } else pc.push_back(c); }
    Expr *t = pc[0], *top = t; u64 sb = 1ull << (t->w - 1); int how = 0; y = 0;
    if (t->k == KXOR && isc(t->b) && t->b->c == sb) { top = t->a; how = 1; } else if (t->k == KAND && isc(t->b) && t->b->c == sb - 1) { top = t->a; how = 2; }
    else if (t->k == KOR) { Expr *p = t->a, *q = t->b; for (int k = 0; k < 2 && !how; k++, std::swap(p, q)) if (p->k == KAND && isc(p->b) && p->b->c == sb - 1 && q->k == KAND && isc(q->b) && q->b->c == sb) { how = 3; top = p->a; y = q->a; } }
    if (!how) return 0;
    x = top; for (size_t i = 1; i < pc.size(); i++) x = mkconcat(x, pc[i]); return x->k == KCONCAT || x->w != e->w ? 0 : how;
}
static Z3_ast zi(Expr *e) {
    auto it = g_zi.find(e); if (it != g_zi.end()) return it->second;
    Z3_ast r = 0; int w = e->w; u64 m = mask(w);
    auto wrap = [&](Z3_ast s) { return Z3_mk_mod(Z, s, ipow(w)); };
    switch (e->k) {
    case KCONST: r = iu(e->c); break;
    case KVAR: { char nm[24]; snprintf(nm, sizeof nm, "i%llu", (unsigned long long)e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SI); g_side[e] = {rk(Z3_mk_ge(Z, r, iu(0))), rk(Z3_mk_lt(Z, r, ipow(w)))}; break; }
    case KADD: { u64 A = e->a->um, B = e->b->um; bool no = A + B >= A && A + B <= m; if (isc(e->b) && !no) { Z3_ast s = zadd(zi(e->a), iu(e->b->c)); r = Z3_mk_ite(Z, Z3_mk_ge(Z, s, ipow(w)), zsub(s, ipow(w)), s); } else { Z3_ast s = zadd(zi(e->a), zi(e->b)); r = no ? s : Z3_mk_ite(Z, Z3_mk_ge(Z, s, ipow(w)), zsub(s, ipow(w)), s); } break; }
    case KSUB: { Z3_ast s = zsub(zi(e->a), zi(e->b)); r = Z3_mk_ite(Z, Z3_mk_lt(Z, s, iu(0)), zadd(s, ipow(w)), s); break; }
    case KMUL: { unsigned __int128 p = (unsigned __int128)e->a->um * e->b->um; Z3_ast s = zmul(zi(e->a), zi(e->b)); r = p <= m ? s : wrap(s); break; }
    case KUDIV: if (!isc(e->b) || !e->b->c) throw Unsup{"div"}; r = Z3_mk_div(Z, zi(e->a), zi(e->b)); break;
    case KUREM: if (!isc(e->b) || !e->b->c) throw Unsup{"rem"}; r = Z3_mk_mod(Z, zi(e->a), zi(e->b)); break;
    case KAND: if (w > 1 && e->a->um <= 1 && e->b->um <= 1 && !isc(e->b)) { r = Z3_mk_ite(Z, zand2(Z3_mk_eq(Z, zi(e->a), iu(1)), Z3_mk_eq(Z, zi(e->b), iu(1))), iu(1), iu(0)); break; } if (w > 1 && isc(e->b) && (e->b->c & (e->b->c + 1)) == 0) { r = Z3_mk_mod(Z, zi(e->a), ipow(bitlen(e->b->c))); break; } if (w == 1) { r = Z3_mk_ite(Z, zbr(e), iu(1), iu(0)); break; } throw Unsup{"and"};
    case KSHL: if (!isc(e->b)) throw Unsup{"shl"}; r = wrap(zmul(zi(e->a), ipow((int)e->b->c))); break;
    case KLSHR: if (!isc(e->b)) throw Unsup{"shr"}; r = Z3_mk_div(Z, zi(e->a), ipow((int)e->b->c)); break;
    case KZEXT: r = zi(e->a); break;
    case KSEXT: { Z3_ast a = zi(e->a); r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, ipow(e->a->w - 1)), zadd(a, zsub(ipow(w), ipow(e->a->w))), a); break; }
    case KEXTRACT: { Z3_ast a = zi(e->a); if (e->c) a = Z3_mk_div(Z, a, ipow((int)e->c)); r = (e->a->um >> e->c) <= m ? a : Z3_mk_mod(Z, a, ipow(w)); break; }
    case KCONCAT: {      // adjacent slices of one value (bytes stored to memory and read back) are put together again
        std::vector<Expr *> pc; Expr *c = e; std::vector<Expr *> stk{e}; while (!stk.empty()) { c = stk.back(); stk.pop_back(); if (c->k == KCONCAT) { stk.push_back(c->b); stk.push_back(c->a); } else pc.push_back(c); }
        Z3_ast acc = 0; for (size_t i = 0; i < pc.size();) { Expr *h = pc[i]; Expr *bs = h->k == KEXTRACT ? h->a : h; int hi = (h->k == KEXTRACT ? (int)h->c : 0) + h->w, lo = h->k == KEXTRACT ? (int)h->c : 0; size_t j = i + 1;
            for (; j < pc.size(); j++) { Expr *q = pc[j]; Expr *qb = q->k == KEXTRACT ? q->a : q; int ql = q->k == KEXTRACT ? (int)q->c : 0; if (qb != bs || ql + q->w != lo) break; lo = ql; }
            Z3_ast v = j == i + 1 ? zi(h) : zi(mkextract(bs, lo, hi - lo)); acc = acc ? zadd(zmul(acc, ipow(hi - lo)), v) : v; i = j; }
        r = acc; break; }
    case KITE: r = Z3_mk_ite(Z, zbr(e->a), zi(e->b), zi(e->d)); break;
    case KF2S: case KF2U: { auto b = iv(e->a); if (b.first >= 0 && b.second < ldexp(1.0, e->k == KF2U ? w : w - 1)) { r = Z3_mk_real2int(Z, zr(e->a)); break; } Z3_ast x = zr(e->a), z0 = Z3_mk_real(Z, 0, 1), t = Z3_mk_ite(Z, Z3_mk_ge(Z, x, z0), Z3_mk_real2int(Z, x), Z3_mk_unary_minus(Z, Z3_mk_real2int(Z, Z3_mk_unary_minus(Z, x))));
        Z3_ast u = Z3_mk_ite(Z, Z3_mk_ge(Z, t, iu(0)), t, zadd(t, ipow(w))); int top = e->k == KF2U ? w : w - 1; Z3_ast lo = e->k == KF2U ? iu(0) : Z3_mk_unary_minus(Z, ipow(w - 1));
        r = Z3_mk_ite(Z, zand2(Z3_mk_ge(Z, t, lo), Z3_mk_lt(Z, t, ipow(top))), u, Z3_mk_unsigned_int64(Z, w >= 32 ? 1ull << (w - 1) : 0, SI)); break; }
    case KOR: case KXOR: if (w > 1 && e->a->um <= 1 && e->b->um <= 1) { Z3_ast x = Z3_mk_eq(Z, zi(e->a), iu(1)), y = Z3_mk_eq(Z, zi(e->b), iu(1)), o[2] = {x, y}; r = Z3_mk_ite(Z, e->k == KOR ? Z3_mk_or(Z, 2, o) : Z3_mk_xor(Z, x, y), iu(1), iu(0)); break; }   /* fall through */
    default: if (w == 1) { r = Z3_mk_ite(Z, zbr(e), iu(1), iu(0)); break; } throw Unsup{"integer operation"};
    }
    rk(r); g_zi[e] = r; return r;
}
static Z3_ast zsgn(Expr *e) { if (e->um < (mask(e->w) >> 1) + 1) return zi(e); Z3_ast a = zi(e); return Z3_mk_ite(Z, Z3_mk_ge(Z, a, ipow(e->w - 1)), zsub(a, ipow(e->w)), a); }
static Z3_ast rabs_(Z3_ast x) { return Z3_mk_ite(Z, Z3_mk_ge(Z, x, Z3_mk_real(Z, 0, 1)), x, Z3_mk_unary_minus(Z, x)); }
struct Rnd { Z3_ast x, r; int w; Expr *e; }; static std::unordered_map<Expr *, Rnd> g_rnd;
// bound of an expression that is integer-valued on its own account, or -1: sums and products below 2^p are exact
static double ibound(Expr *e) {
    switch (e->k) {
    case KCONST: { double d = e->w == 32 ? asf(e->c) : asd(e->c); return std::isfinite(d) && d == floor(d) ? fabs(d) : -1; }
    case KU2F: return (double)e->a->um; case KS2F: return e->a->um < (mask(e->a->w) >> 1) + 1 ? (double)e->a->um : ldexp(1.0, e->a->w - 1);
    case KFADD: case KFSUB: case KFMUL: { double x = ibound(e->a), y = ibound(e->b); if (x < 0 || y < 0) return -1; double r = e->k == KFMUL ? x * y : x + y; return r <= ldexp(1.0, e->w == 32 ? 24 : 53) ? r : -1; }
    case KFEXT: return ibound(e->a);
    default: return -1; }
}
static Z3_ast rounded(Expr *e, int w, Z3_ast x) {
    if (O_real == 2 || ibound(e) >= 0) return x;
    char nm[24]; snprintf(nm, sizeof nm, "r%u", e->id); Z3_ast r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SR); int p = w == 32 ? 24 : 53;
    Z3_ast z0 = Z3_mk_real(Z, 0, 1), u = rpow2(-p), tiny = rpow2(-120), up = zadd(zmul(x, zadd(Z3_mk_real(Z, 1, 1), u)), tiny), dn = zsub(zmul(x, zsub(Z3_mk_real(Z, 1, 1), u)), tiny), up2 = zadd(zmul(x, zsub(Z3_mk_real(Z, 1, 1), u)), tiny), dn2 = zsub(zmul(x, zadd(Z3_mk_real(Z, 1, 1), u)), tiny);
    auto &S = g_side[e]; Z3_ast pos = Z3_mk_ge(Z, x, z0);
    auto b = iv(e); if (b.first >= 0 && p == 53) { S.push_back(rk(Z3_mk_le(Z, r, up))); S.push_back(rk(Z3_mk_ge(Z, r, dn))); } else
    S.push_back(rk(Z3_mk_ite(Z, pos, zand2(Z3_mk_le(Z, r, up), Z3_mk_ge(Z, r, dn)), zand2(Z3_mk_le(Z, r, up2), Z3_mk_ge(Z, r, dn2)))));
    g_rnd[e] = {rk(x), rk(r), w, e};
    return r;
}
static bool nview(Expr *e, Expr *own, Z3_ast *r); static std::unordered_map<Expr *, int> g_over; static std::unordered_map<Expr *, Z3_ast> g_overa;
static Z3_ast fresh(const char *p, Expr *e) { char nm[24]; snprintf(nm, sizeof nm, "%s%u", p, e->id); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SR); }
static Z3_ast zr(Expr *e) {
    auto it = g_zr.find(e); if (it != g_zr.end()) return it->second;
    Z3_ast r = 0, z0 = Z3_mk_real(Z, 0, 1); int w = e->w;
    switch (e->k) {
    case KCONST: r = rconst(w == 32 ? asf(e->c) : asd(e->c)); break;
    case KVAR: r = fresh("x", e); break;
    case KITE: r = Z3_mk_ite(Z, zbr(e->a), zr(e->b), zr(e->d)); break;
    case KXOR: if (!isc(e->b) || e->b->c != 1ull << (w - 1)) throw Unsup{"xor"}; r = Z3_mk_unary_minus(Z, zr(e->a)); break;
    case KAND: if (!isc(e->b) || e->b->c != mask(w - 1)) throw Unsup{"and"}; r = rabs_(zr(e->a)); break;
    case KFADD: r = rounded(e, w, zadd(zr(e->a), zr(e->b))); break;
    case KFSUB: r = rounded(e, w, zsub(zr(e->a), zr(e->b))); break;
    case KFMUL: r = rounded(e, w, zmul(zr(e->a), zr(e->b))); break;
    case KFDIV: { Z3_ast a = zr(e->a), b = zr(e->b); if (isc(e->b)) { r = rounded(e, w, zmul(a, Z3_mk_div(Z, Z3_mk_real(Z, 1, 1), b))); break; } Z3_ast q = fresh("q", e); g_side[e].push_back(rk(zimp(Z3_mk_not(Z, Z3_mk_eq(Z, b, z0)), Z3_mk_eq(Z, zmul(q, b), a)))); r = rounded(e, w, q); break; }
    case KFSQRT: { if (O_real == 2 && nview(e, e, &r)) break; Z3_ast a = zr(e->a), q = fresh("s", e); g_side[e].push_back(rk(zimp(Z3_mk_ge(Z, a, z0), zand2(Z3_mk_ge(Z, q, z0), Z3_mk_eq(Z, zmul(q, q), a))))); r = rounded(e, w, q); break; }
    case KFROUND: { Z3_ast a = zr(e->a), f = Z3_mk_int2real(Z, Z3_mk_real2int(Z, a)), c = Z3_mk_unary_minus(Z, Z3_mk_int2real(Z, Z3_mk_real2int(Z, Z3_mk_unary_minus(Z, a)))), h = Z3_mk_real(Z, 1, 2);
        if (e->c == 0) r = f; else if (e->c == 1) r = c; else if (e->c == 2) r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, z0), f, c); else if (e->c == 3) r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, z0), Z3_mk_int2real(Z, Z3_mk_real2int(Z, zadd(a, h))), Z3_mk_unary_minus(Z, Z3_mk_int2real(Z, Z3_mk_real2int(Z, zsub(h, a))))); else throw Unsup{"rint"}; break; }
    case KS2F: r = Z3_mk_int2real(Z, zsgn(e->a)); if (e->a->w > (w == 32 ? 24 : 53) && e->a->um > mask(w == 32 ? 24 : 53)) r = rounded(e, w, r); break;
    case KU2F: r = Z3_mk_int2real(Z, zi(e->a)); if (e->a->um > mask(w == 32 ? 24 : 53)) r = rounded(e, w, r); break;
    case KFEXT: r = zr(e->a); break;
    case KFTRUNC: r = rounded(e, 32, zr(e->a)); break;
    case KFUN: { Z3_ast a[2] = {0, 0}; for (int i = 0; i < 2; i++) { Expr *x = i ? e->b : e->a; if (!x) continue; auto oa = g_overa.find(x); if (oa != g_overa.end()) a[i] = oa->second; else if (!(O_real == 2 && nview(x, e, &a[i]))) a[i] = zr(x); } Z3_sort d[2] = {SR, SR}; char nm[24]; snprintf(nm, sizeof nm, "fn%llu", (unsigned long long)e->c); Z3_func_decl f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, nm), e->b ? 2 : 1, d, SR); r = Z3_mk_app(Z, f, e->b ? 2 : 1, a); break; }
    case KOR: case KCONCAT: { Expr *x, *y; int how = sview(e, x, y); if (!how) throw Unsup{"bits as floating point"};
        r = zr(x); if (how == 1) { r = Z3_mk_unary_minus(Z, r); break; } r = rabs_(r); if (how == 2) break;
        if (y->k == KEXTRACT) { if ((int)y->c + y->w != y->a->w) throw Unsup{"bits as floating point"}; y = y->a; } r = Z3_mk_ite(Z, Z3_mk_lt(Z, zr(y), z0), Z3_mk_unary_minus(Z, r), r); break; }
    default: throw Unsup{"bits as floating point"};
    }
    rk(r); g_zr[e] = r; return r;
}
static Z3_ast zbr(Expr *e) {
    auto it = g_zbr.find(e); if (it != g_zbr.end()) return it->second; Z3_ast r = 0;
    { auto o = g_over.find(e); if (o != g_over.end()) { r = o->second ? Z3_mk_true(Z) : Z3_mk_false(Z); rk(r); g_zbr[e] = r; return r; } }
    switch (e->k) {
    case KCONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case KEQ: r = Z3_mk_eq(Z, zi(e->a), zi(e->b)); break; case KULT: r = Z3_mk_lt(Z, zi(e->a), zi(e->b)); break; case KULE: r = Z3_mk_le(Z, zi(e->a), zi(e->b)); break;
    case KSLT: r = Z3_mk_lt(Z, zsgn(e->a), zsgn(e->b)); break; case KSLE: r = Z3_mk_le(Z, zsgn(e->a), zsgn(e->b)); break;
    case KFEQ: r = Z3_mk_eq(Z, zr(e->a), zr(e->b)); break; case KFLT: r = Z3_mk_lt(Z, zr(e->a), zr(e->b)); break; case KFLE: r = Z3_mk_le(Z, zr(e->a), zr(e->b)); break;
    case KFUNO: r = Z3_mk_false(Z); break;
    case KAND: r = zand2(zbr(e->a), zbr(e->b)); break; case KOR: { Z3_ast o[2] = {zbr(e->a), zbr(e->b)}; r = Z3_mk_or(Z, 2, o); break; }
    case KXOR: r = Z3_mk_xor(Z, zbr(e->a), zbr(e->b)); break; case KITE: r = Z3_mk_ite(Z, zbr(e->a), zbr(e->b), zbr(e->d)); break;
    default: r = Z3_mk_eq(Z, zi(e), iu(1)); break;
    }
    rk(r); g_zbr[e] = r; return r;
}
#include "nf.h"
// square roots and function arguments enter the solver in normal form, so that equal ones are one term
static bool nview(Expr *e, Expr *own, Z3_ast *r) { try { const Frac &f = nf(e); if (!f.d.empty()) return false; for (int o : f.ob) if (n_obls[o].second != 1 || !n_sq.count(n_obls[o].first)) return false; if (f.n.size() > 200) return false; std::set<int> sv; sv.swap(n_need); *r = zp(f.n); std::vector<Z3_ast> sd; nsides(sd); for (Z3_ast a : sd) g_side[own].push_back(rk(a)); n_need.swap(sv); return true; } catch (NoNf &) { return false; } }
static void sides(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Z3_ast> &out) { if (!e || g_over.count(e) || !seen.insert(e).second) return; auto it = g_side.find(e); if (it != g_side.end()) out.insert(out.end(), it->second.begin(), it->second.end()); sides(e->a, seen, out); sides(e->b, seen, out); sides(e->d, seen, out); }
static void rinit() {
    SI = Z3_mk_int_sort(Z); SR = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, SI)); Z3_inc_ref(Z, Z3_sort_to_ast(Z, SR));
    if (O_real == 2) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "som"), true); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "som_blowup"), 100000); Z3_tactic t = Z3_tactic_using_params(Z, Z3_mk_tactic(Z, "simplify"), p); Z3_tactic_inc_ref(Z, t); Z3_tactic s = Z3_mk_tactic(Z, "smt"); Z3_tactic_inc_ref(Z, s); Z3_tactic a = Z3_tactic_and_then(Z, t, s); Z3_tactic_inc_ref(Z, a); zs_re = Z3_mk_solver_from_tactic(Z, a); }
    else zs_re = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, zs_re);
}
// when the solver gives up: small round values for the floating-point inputs, evaluated exactly as the code does (still only a candidate)
static bool rsearch(std::vector<Expr *> &cs, Expr *cond, std::vector<u64> &m) {
    std::set<u32> sv; for (Expr *e : cs) for (u32 v : *e->sup) sv.insert(v); for (u32 v : *cond->sup) sv.insert(v); std::vector<u64> t = m; u64 x = 88172645463325252ull;
    auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    for (int k = 0; k < 40000; k++) { for (u32 v : sv) { int w = g_varw[v]; if (w != 32 && w != 64) continue; int sc = (k & 3) ? 8 : 64; double d = (double)((i64)(rnd() % (sc * (k & 4 ? 2 : 8) + 1)) * 2 - sc * (k & 4 ? 2 : 8)) / 2 / sc; if ((rnd() & 7) == 0) d = 0; t[v] = w == 32 ? fromf((float)d) : fromd(d); }
        g_epoch++; if (!ev(cond, t.data())) continue; bool ok = true; for (Expr *e : cs) if (!ev(e, t.data())) { ok = false; break; } if (ok) { m = t; return true; } }
    return false;
}
static void cmps(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &out) { if (!e || !e->fp || !seen.insert(e).second) return; if (e->k == KFEQ || e->k == KFLT || e->k == KFLE || e->k == KFUN) out.push_back(e); cmps(e->a, seen, out); cmps(e->b, seen, out); cmps(e->d, seen, out); }
static Z3_lbool rcheck(std::vector<Z3_ast> &as, unsigned ms) {
    Z3_params zp_ = Z3_mk_params(Z); Z3_params_inc_ref(Z, zp_); Z3_params_set_uint(Z, zp_, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, zs_re, zp_); Z3_params_dec_ref(Z, zp_);
    Z3_solver_push(Z, zs_re); for (Z3_ast a : as) Z3_solver_assert(Z, zs_re, a); Z3_lbool r = Z3_solver_check(Z, zs_re); Z3_solver_pop(Z, zs_re, 1); return r; }
// comparisons decided by normal forms whose side conditions follow from the path
static std::map<std::pair<std::vector<u32>, int>, bool> g_obc;
static void overrides(std::vector<Expr *> &cs, Expr *cond, unsigned ms, std::unordered_map<Expr *, int> &ov, std::unordered_map<Expr *, Z3_ast> &ova) {
    std::unordered_set<Expr *> seen; std::vector<Expr *> cm; for (Expr *e : cs) cmps(e, seen, cm); cmps(cond, seen, cm); std::vector<u32> key; for (Expr *e : cs) key.push_back(e->id); std::sort(key.begin(), key.end());
    // an obligation follows from the path condition; facts are path conditions in normal form whose own obligations follow from the plain path
    auto proved = [&](int o, const std::vector<std::pair<int, Poly>> &facts) { bool good = false; try { std::vector<Z3_ast> as; std::unordered_set<Expr *> sn; n_need.clear(); for (Expr *x : cs) as.push_back(zbr(x)); for (Expr *x : cs) sides(x, sn, as); Z3_ast p = zp(n_obls[o].first), z0 = Z3_mk_real(Z, 0, 1); for (auto &mm : n_obls[o].first) for (auto &yy : mm.first) if (n_atoms[yy.first].e) sides(n_atoms[yy.first].e, sn, as); as.push_back(n_obls[o].second ? Z3_mk_lt(Z, p, z0) : Z3_mk_eq(Z, p, z0));
            for (auto &f : facts) { Z3_ast q = zp(f.second); as.push_back(f.first == KFEQ ? Z3_mk_eq(Z, q, z0) : f.first == KFLT ? Z3_mk_lt(Z, q, z0) : Z3_mk_le(Z, q, z0)); } nsides(as); good = rcheck(as, ms < 5000 ? ms : 5000) == Z3_L_FALSE; } catch (Unsup &) {} catch (NoNf &) {} return good; };
    auto plain = [&](int o) { auto k = std::make_pair(key, o); auto i = g_obc.find(k); if (i == g_obc.end()) i = g_obc.insert({k, proved(o, {})}).first; return i->second; };
    std::vector<std::pair<int, Poly>> facts; bool have = false;
    auto holds = [&](std::set<int> &ob) { bool ok = true;
        for (int o : ob) { if (plain(o)) continue; auto k = std::make_pair(key, -1 - o); auto i = g_obc.find(k); if (i == g_obc.end()) {
                if (!have) { have = true; for (Expr *x : cs) if (x->k == KFLE || x->k == KFLT || x->k == KFEQ) try { Frac f = fadd(nf(x->a), nf(x->b), -1); if (!f.d.empty() || f.n.size() > 400) continue; bool all = true; for (int q : f.ob) all = all && plain(q); if (all) facts.push_back({x->k, f.n}); } catch (NoNf &) {} }
                bool good = proved(o, facts); if (!good && getenv("VPX_DUMP")) fprintf(stderr, "obligation %d (kind %d) not proved\n", o, n_obls[o].second);
                i = g_obc.insert({k, good}).first; }
            if (!i->second) { ok = false; break; } }
        return ok; };
    for (Expr *e : cm) { std::set<int> ob;
        if (e->k == KFUN) { for (Expr *x : {e->a, e->b}) if (x && !ova.count(x)) try { const Frac &f = nf(x); if (!f.d.empty() || f.ob.empty()) continue; ob = f.ob; if (holds(ob)) { std::set<int> sv; sv.swap(n_need); ova[x] = rk(zp(f.n)); std::vector<Z3_ast> sd; nsides(sd); for (Z3_ast a : sd) g_side[e].push_back(rk(a)); n_need.swap(sv); } } catch (NoNf &) {} catch (Unsup &) {} continue; }
        int v = ncmp(e, ob); if (getenv("VPX_NF")) fprintf(stderr, "nf: comparison %u -> %d, %zu side conditions\n", e->id, v, ob.size()), ndump(e); if (v < 0) continue; if (holds(ob)) ov[e] = v; }
}
// -> 0 unsat, 1 sat (candidate in m), 2 unknown
static int rsolve(std::vector<Expr *> &cs, Expr *cond, unsigned ms, std::vector<u64> *m) {
    int res = 2; std::unordered_map<Expr *, Z3_ast> keep, keepr, keepi; bool ovr = false;
    if (O_real == 2) { std::unordered_map<Expr *, int> ov; std::unordered_map<Expr *, Z3_ast> ova; overrides(cs, cond, ms, ov, ova); if (!ov.empty() || !ova.empty()) { if (ov.count(cond) && !ov[cond]) return 0; ovr = true; keep.swap(g_zbr); if (!ova.empty()) { keepr.swap(g_zr); keepi.swap(g_zi); } g_over.swap(ov); g_overa.swap(ova); } }
    try {
        std::vector<Z3_ast> as; for (Expr *e : cs) as.push_back(zbr(e)); as.push_back(zbr(cond)); std::unordered_set<Expr *> seen; std::vector<Z3_ast> sd; for (Expr *e : cs) sides(e, seen, sd); sides(cond, seen, sd);
        // rounding is one monotone function per width that keeps representable numbers: instantiated on the pairs of this query and on its quotients
        bool flt = false; for (Expr *e : seen) if (g_rnd.count(e) && g_rnd[e].w == 32) flt = true;
        std::vector<Rnd> rn; std::vector<Z3_ast> qs; for (Expr *e : seen) { auto i = g_rnd.find(e); if (i != g_rnd.end()) rn.push_back(i->second); if ((e->k == KUDIV || (e->k == KVAR && e->w > 8)) && g_zi.count(e) && e->um <= 0xffffffffu && (e->um < (1u << 24) || !flt)) qs.push_back(Z3_mk_int2real(Z, g_zi[e])); }
        Z3_ast one = Z3_mk_real(Z, 1, 1); for (auto &i : rn) for (auto n0 : qs) for (int k = 0; k < 2; k++) { Z3_ast n = k ? zadd(n0, one) : n0; sd.push_back(zimp(Z3_mk_ge(Z, i.x, n), Z3_mk_ge(Z, i.r, n))); sd.push_back(zimp(Z3_mk_le(Z, i.x, n), Z3_mk_le(Z, i.r, n))); }
        for (auto &i : rn) if (i.e->k == KFADD || i.e->k == KFSUB || i.e->k == KFMUL || i.e->k == KFDIV) for (Expr *o : {i.e->a, i.e->b}) { Z3_ast n = zr(o); sd.push_back(zimp(Z3_mk_ge(Z, i.x, n), Z3_mk_ge(Z, i.r, n))); sd.push_back(zimp(Z3_mk_le(Z, i.x, n), Z3_mk_le(Z, i.r, n))); }
        if (rn.size() <= 12) for (auto &i : rn) for (auto &j : rn) if (&i != &j && i.w == j.w) sd.push_back(zimp(Z3_mk_le(Z, i.x, j.x), Z3_mk_le(Z, i.r, j.r)));
        Z3_params zp = Z3_mk_params(Z); Z3_params_inc_ref(Z, zp); Z3_params_set_uint(Z, zp, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, zs_re, zp); Z3_params_dec_ref(Z, zp);
        Z3_solver_push(Z, zs_re); for (Z3_ast a : sd) Z3_solver_assert(Z, zs_re, a); for (Z3_ast a : as) Z3_solver_assert(Z, zs_re, a);
        Z3_lbool r = Z3_solver_check(Z, zs_re); res = r == Z3_L_FALSE ? 0 : r == Z3_L_TRUE ? 1 : 2;
        if (res == 1 && getenv("VPX_SAT")) fprintf(stderr, "SAT %s\n", Z3_solver_to_string(Z, zs_re));
        if (res == 1 && m) {
            Z3_model md = Z3_solver_get_model(Z, zs_re); Z3_model_inc_ref(Z, md);
            for (Expr *e : seen) if (e->k == KVAR) { Z3_ast a = 0; u64 v = 0; auto i = g_zi.find(e); auto x = g_zr.find(e);
                if (i != g_zi.end() && Z3_model_eval(Z, md, i->second, true, &a) && Z3_get_numeral_uint64(Z, a, &v)) (*m)[e->c] = v;
                else if (x != g_zr.end() && Z3_model_eval(Z, md, x->second, true, &a)) { double d = atof(Z3_get_numeral_decimal_string(Z, a, 20)); (*m)[e->c] = e->w == 32 ? fromf((float)d) : fromd(d); } }
            Z3_model_dec_ref(Z, md);
        }
        if (res == 2 && getenv("VPX_DUMP")) fprintf(stderr, "%s(check-sat)\n", Z3_solver_to_string(Z, zs_re));
        Z3_solver_pop(Z, zs_re, 1);
    } catch (Unsup &u) { static int once; if (!once++) fprintf(stderr, "vpx: no arithmetic view: %s\n", u.w); }
    if (ovr) { g_over.clear(); g_zbr.swap(keep); if (!g_overa.empty()) { keepr.swap(g_zr); keepi.swap(g_zi); g_overa.clear(); } }
    if (res == 2 && m && rsearch(cs, cond, *m)) res = 1;
    return res;
}
