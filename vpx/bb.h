// Bit-blasting of QF_BV conditions to an AIG-like circuit and incremental SAT (minisat) under assumptions.
#pragma once
#include <minisat/core/Solver.h>
#undef l_True
#undef l_False
#undef l_Undef
typedef u32 L;                       // literal: 2*node + negation; node 0 is constant false
struct Node { u8 t; L a, b, c; };    // 0 const, 1 input, 2 and, 3 xor, 4 mux(a?b:c)
static vector<Node> bn(1, Node{0, 0, 0, 0});
struct NK { u8 t; L a, b, c; bool operator==(const NK &o) const { return t == o.t && a == o.a && b == o.b && c == o.c; } };
struct NKH { size_t operator()(const NK &k) const { u64 h = k.t; h = h * 0x9E3779B97F4A7C15ull + k.a; h ^= h >> 31; h = h * 0xC2B2AE3D27D4EB4Full + k.b; h ^= h >> 29; h = h * 0x165667B19E3779F9ull + k.c; return h ^ (h >> 32); } };
static std::unordered_map<NK, L, NKH> bh;
static vector<vector<L> *> bbits;    // by expression id
static vector<L> binput;             // input node of (var, bit): var -> first lit
static L bnode(u8 t, L a, L b, L c) { NK k{t, a, b, c}; auto it = bh.find(k); if (it != bh.end()) return it->second; L r = (L)bn.size() * 2; bn.push_back(Node{t, a, b, c}); bh[k] = r; return r; }
static L Land(L a, L b) { if (a > b) std::swap(a, b); if (a == 0) return 0; if (a == 1) return b; if (a == b) return a; if ((a ^ 1) == b) return 0; return bnode(2, a, b, 0); }
static L Lor(L a, L b) { return Land(a ^ 1, b ^ 1) ^ 1; }
static L Lxor(L a, L b) { L n = (a & 1) ^ (b & 1); a &= ~1u; b &= ~1u; if (a > b) std::swap(a, b); if (a == 0) return b ^ n; if (a == b) return n; return bnode(3, a, b, 0) ^ n; }
static L Lmux(L c, L t, L e) {
    if (c == 1) return t; if (c == 0) return e; if (t == e) return t; if (c & 1) { c ^= 1; std::swap(t, e); }
    if (t == 1) return Lor(c, e); if (t == 0) return Land(c ^ 1, e); if (e == 0) return Land(c, t); if (e == 1) return Lor(c ^ 1, t);
    if (t == (e ^ 1)) return Lxor(c, e); if (t == c) return Lor(c, e); if (e == c) return Land(c, t); if (t == (c ^ 1)) return Land(c ^ 1, e); if (e == (c ^ 1)) return Lor(c ^ 1, t);
    L n = t & 1; t ^= n; e ^= n; return bnode(4, c, t, e) ^ n; }
typedef vector<L> BV;
static BV Badd(const BV &a, const BV &b, L cin) { BV r(a.size()); L c = cin; for (size_t i = 0; i < a.size(); i++) { L x = Lxor(a[i], b[i]); r[i] = Lxor(x, c); c = Lmux(x, c, a[i]); } return r; }
static BV Bnot(BV a) { for (auto &l : a) l ^= 1; return a; }
static L Bult(const BV &a, const BV &b, L start) { L r = start; for (size_t i = 0; i < a.size(); i++) r = Lmux(Lxor(a[i], b[i]), b[i], r); return r; }   // start=0: <, 1: <=
static L Beq(const BV &a, const BV &b) { L r = 1; for (size_t i = 0; i < a.size(); i++) r = Land(r, Lxor(a[i], b[i]) ^ 1); return r; }
static BV Bmux(L c, const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = Lmux(c, a[i], b[i]); return r; }
static BV Bneg(const BV &a) { BV z(a.size(), 0); return Badd(z, Bnot(a), 1); }
static BV Bmul(const BV &a0, const BV &b0) { bool sw = false; { size_t ca = 0, cb = 0; for (L l : a0) ca += l < 2; for (L l : b0) cb += l < 2; sw = ca > cb || (ca == cb && a0 < b0); } const BV &a = sw ? b0 : a0, &b = sw ? a0 : b0; size_t n = a.size(); BV r(n, 0); for (size_t i = 0; i < n; i++) { if (b[i] == 0) continue; BV t(n, 0); for (size_t j = i; j < n; j++) t[j] = Land(a[j - i], b[i]); r = Badd(r, t, 0); } return r; }
static vector<std::pair<BV, L>> blem;   // theorems of the encoding that help the solver: b == 0 or a mod b < b
static void Bdivrem(const BV &a, const BV &b, BV &q, BV &r) { size_t n = a.size(); q.assign(n, 0); r.assign(n + 1, 0); BV bx = b; bx.push_back(0);
    for (int i = (int)n - 1; i >= 0; i--) { for (size_t j = n; j > 0; j--) r[j] = r[j - 1]; r[0] = a[i]; L ge = Bult(r, bx, 0) ^ 1; q[i] = ge; r = Bmux(ge, Badd(r, Bnot(bx), 1), r); } r.pop_back();
    L z = Beq(b, BV(n, 0)), lem = Lor(z, Bult(r, b, 0)); if (lem > 1) blem.push_back({r, lem}); }
#include "bbfp.h"
static const BV &bb(Expr *e) {
    if (bbits.size() <= e->id) bbits.resize(e->id + 1024, 0);
    if (bbits[e->id]) return *bbits[e->id];
    BV r; int w = e->w;
    switch (e->k) {
    case KCONST: for (int i = 0; i < w; i++) r.push_back((e->c >> i) & 1); break;
    case KVAR: { u32 v = (u32)e->c; if (binput.size() <= v) binput.resize(v + 64, 0); if (!binput[v]) { binput[v] = (L)bn.size() * 2; for (int i = 0; i < w; i++) bn.push_back(Node{1, 0, 0, 0}); } for (int i = 0; i < w; i++) r.push_back(binput[v] + 2 * i); break; }
    case KADD: r = Badd(bb(e->a), bb(e->b), 0); break;
    case KSUB: { BV a = bb(e->a); r = Badd(a, Bnot(bb(e->b)), 1); break; }
    case KMUL: { BV a = bb(e->a); r = Bmul(a, bb(e->b)); break; }
    case KUDIV: case KUREM: { BV a = bb(e->a), b = bb(e->b), q, m; Bdivrem(a, b, q, m); r = e->k == KUDIV ? q : m; break; }   /* b == 0: q = all ones, m = a */
    case KSDIV: case KSREM: { BV a = bb(e->a), b = bb(e->b), q, m; L sa = a[w - 1], sb = b[w - 1]; a = Bmux(sa, Bneg(a), a); b = Bmux(sb, Bneg(b), b); Bdivrem(a, b, q, m); if (e->k == KSDIV) r = Bmux(Lxor(sa, sb), Bneg(q), q); else r = Bmux(sa, Bneg(m), m); break; }
    case KAND: { const BV a = bb(e->a); const BV &b = bb(e->b); for (int i = 0; i < w; i++) r.push_back(Land(a[i], b[i])); break; }
    case KOR: { const BV a = bb(e->a); const BV &b = bb(e->b); for (int i = 0; i < w; i++) r.push_back(Lor(a[i], b[i])); break; }
    case KXOR: { const BV a = bb(e->a); const BV &b = bb(e->b); for (int i = 0; i < w; i++) r.push_back(Lxor(a[i], b[i])); break; }
    case KSHL: case KLSHR: case KASHR: { BV a = bb(e->a), b = bb(e->b); L fill = e->k == KASHR ? a[w - 1] : 0; int k = 0; for (; (1 << k) < w; k++) { BV t(w); for (int i = 0; i < w; i++) { int j = e->k == KSHL ? i - (1 << k) : i + (1 << k); t[i] = j < 0 || j >= w ? fill : a[j]; } a = Bmux(b[k], t, a); }
        L big = 0; for (int i = k; i < w; i++) big = Lor(big, b[i]); if ((w & (w - 1)) != 0) { BV wv(w); for (int i = 0; i < w; i++) wv[i] = (w >> i) & 1; big = Lor(big, Bult(b, wv, 0) ^ 1); } r = Bmux(big, BV(w, fill), a); break; }
    case KEQ: { const BV a = bb(e->a); r.push_back(Beq(a, bb(e->b))); break; }
    case KULT: case KULE: { const BV a = bb(e->a); r.push_back(Bult(a, bb(e->b), e->k == KULE)); break; }
    case KSLT: case KSLE: { BV a = bb(e->a), b = bb(e->b); a.back() ^= 1; b.back() ^= 1; r.push_back(Bult(a, b, e->k == KSLE)); break; }
    case KITE: { L c = bb(e->a)[0]; const BV a = bb(e->b); r = Bmux(c, a, bb(e->d)); break; }
    case KCONCAT: { r = bb(e->b); const BV &h = bb(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
    case KEXTRACT: { const BV &a = bb(e->a); r.assign(a.begin() + e->c, a.begin() + e->c + w); break; }
    case KZEXT: r = bb(e->a); r.resize(w, 0); break;
    case KSEXT: { r = bb(e->a); L s = r.back(); r.resize(w, s); break; }
    case KFADD: case KFSUB: { BV a = bb(e->a); r = Fadd(a, bb(e->b), e->k == KFSUB); break; }
    case KFMUL: { BV a = bb(e->a); r = Fmul(a, bb(e->b)); break; }
    case KFDIV: { BV a = bb(e->a); r = Fdiv(a, bb(e->b)); break; }
    case KFEQ: case KFLT: case KFLE: case KFUNO: { BV a = bb(e->a); r.push_back(Fcmp(e->k, a, bb(e->b))); break; }
    case KF2S: case KF2U: r = Ftoint(bb(e->a), e->k == KF2S, w); break;
    case KS2F: case KU2F: r = Ffromint(bb(e->a), e->k == KS2F, w); break;
    case KFEXT: case KFTRUNC: r = Fcvt(bb(e->a), w); break;
    default: fprintf(stderr, "vpx: bit-blasting floating point\n"); abort();
    }
    return *(bbits[e->id] = new BV(std::move(r)));
}
static const Minisat::lbool ML_TRUE((uint8_t)0), ML_UNDEF((uint8_t)2);
struct Sat : Minisat::Solver { vector<int> nv; vector<u32> nd; u32 ep = 1; vector<u32> seen; vector<Minisat::Var> dec; vector<u8> enc; };
static Sat *bs;
static Minisat::Lit slit(L l) { return Minisat::mkLit(bs->nv[l >> 1], l & 1); }
static void encode(u32 root, vector<u32> &cone) {
    if (bs->nv.size() < bn.size()) { bs->nv.resize(bn.size(), -1); bs->seen.resize(bn.size(), 0); }
    static vector<u32> stk; stk.clear(); stk.push_back(root);
    while (!stk.empty()) { u32 n = stk.back(); stk.pop_back(); if (n == 0 || bs->seen[n] == bs->ep) continue; bs->seen[n] = bs->ep; cone.push_back(n); const Node &d = bn[n]; if (d.t >= 2) { stk.push_back(d.a >> 1); stk.push_back(d.b >> 1); if (d.t == 4) stk.push_back(d.c >> 1); } }
}
// 1 sat, 0 unsat, -1 unknown; on sat the value of each input of the cone is available through bsval()
static int bsolve(const vector<Expr *> &cs, double tlimit) {
    vector<L> as; for (Expr *e : cs) { L l = bb(e)[0]; if (l == 0) return 0; if (l != 1) as.push_back(l); }
    static vector<u32> cone; cone.clear(); if (!bs) { bs = new Sat(); bs->verbosity = 0; } bs->ep++; for (L l : as) encode(l >> 1, cone);
    if ((size_t)bs->nVars() > 4 * cone.size() + 500) { delete bs; bs = new Sat(); bs->verbosity = 0; cone.clear(); bs->ep++; for (L l : as) encode(l >> 1, cone); }
    for (auto &l : blem) { bool hit = false; for (L b : l.first) if (b > 1 && (b >> 1) < bs->seen.size() && bs->seen[b >> 1] == bs->ep) { hit = true; break; } if (hit) { as.push_back(l.second); encode(l.second >> 1, cone); } }
    for (u32 n : cone) if (bs->nv[n] < 0) { bs->nv[n] = bs->newVar(ML_UNDEF, false); bs->nd.resize(bs->nVars(), 0); bs->enc.resize(bs->nVars(), 0); }
    for (u32 n : cone) bs->nd[bs->nv[n]] = bs->ep;
    for (auto v : bs->dec) if (bs->nd[v] != bs->ep) bs->setDecisionVar(v, false);
    for (u32 n : cone) { bs->setDecisionVar(bs->nv[n], true); }
    bs->dec.clear(); for (u32 n : cone) bs->dec.push_back(bs->nv[n]);
    for (u32 n : cone) { Node &d = bn[n]; if (d.t < 2) continue; if (bs->enc[bs->nv[n]]) continue; bs->enc[bs->nv[n]] = 1;
        Minisat::Lit o = slit(n * 2), a = slit(d.a), b = slit(d.b);
        if (d.t == 2) { bs->addClause(~o, a); bs->addClause(~o, b); bs->addClause(o, ~a, ~b); }
        else if (d.t == 3) { bs->addClause(~o, a, b); bs->addClause(~o, ~a, ~b); bs->addClause(o, ~a, b); bs->addClause(o, a, ~b); }
        else { Minisat::Lit c = slit(d.c); bs->addClause(~a, ~b, o); bs->addClause(~a, b, ~o); bs->addClause(a, ~c, o); bs->addClause(a, c, ~o); bs->addClause(~b, ~c, o); bs->addClause(b, c, ~o); }
    }
    if (!bs->okay()) return -1;
    Minisat::vec<Minisat::Lit> av; for (L l : as) av.push(slit(l));
    double t = now(); Minisat::lbool r = ML_UNDEF;
    while (true) { bs->setConfBudget(3000); r = bs->solveLimited(av); if (r != ML_UNDEF) break; if (now() - t > tlimit) { bs->budgetOff(); return -1; } }
    bs->budgetOff();
    return r == ML_TRUE ? 1 : 0;
}
static bool bsval(u32 var, int w, u64 &out) {
    if (binput.size() <= var || !binput[var]) return false; u32 n = binput[var] >> 1; bool any = false; u64 v = 0;
    for (int i = 0; i < w; i++) { if (n + i >= bs->nv.size() || bs->seen[n + i] != bs->ep || bs->nv[n + i] < 0) continue; Minisat::lbool b = bs->model[bs->nv[n + i]]; any = true; if (b == ML_TRUE) v |= 1ull << i; }
    // bits outside the cone are unconstrained: keep them zero
    out = v; return any;
}
