// Rational normal forms for the exact-real view (-real 2): quotients of polynomials over atoms (variables, square roots with
// s*s = S, function values, anything else opaque). An identity between two sides shows as a constant difference; the
// divisors met on the way must be non-zero and the radicands non-negative, which the arithmetic solver is asked to prove
// from the path condition before the identity is used.
#pragma once
#include <gmpxx.h>
struct NoNf {};
typedef std::vector<std::pair<int, int>> Mono; typedef std::map<Mono, mpq_class> Poly;
struct NAtom { int kind; Expr *e; Poly S; };          // kind 0 opaque (view of e), 1 square root of S, 2 function value of e
static std::vector<NAtom> n_atoms; static std::map<Expr *, int> n_opq; static std::map<Poly, int> n_sq, n_fac; static std::vector<Poly> n_facs; static std::map<std::pair<Poly, int>, int> n_obl; static std::vector<std::pair<Poly, int>> n_obls;   // obligation: 0 = not zero, 1 = not negative
static std::string pstr(const Poly &p) { std::string s; for (auto &x : p) { s += (s.empty() ? "" : " + ") + x.second.get_str(); for (auto &y : x.first) s += "*a" + std::to_string(y.first) + (y.second > 1 ? "^" + std::to_string(y.second) : ""); } return s.substr(0, 600); }
struct Frac { Poly n; std::map<int, int> d; std::set<int> ob; };
static int obl(const Poly &p, int k) { auto r = n_obl.insert({{p, k}, (int)n_obls.size()}); if (r.second) n_obls.push_back({p, k}); return r.first->second; }
static Poly pconst(const mpq_class &c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
static Poly patom(int a) { Poly p; p[Mono{{a, 1}}] = 1; return p; }
static bool pisc(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static mpq_class pc(const Poly &p) { return p.empty() ? mpq_class(0) : p.begin()->second; }
static void padd(Poly &r, const Mono &m, const mpq_class &c) { auto i = r.insert({m, c}); if (!i.second) { i.first->second += c; if (i.first->second == 0) r.erase(i.first); } else if (c == 0) r.erase(i.first); }
static Poly pmul(const Poly &a, const Poly &b);
static void pput(Poly &r, Mono m, const mpq_class &c) {     // a square root's square is its radicand
    for (auto &x : m) if (n_atoms[x.first].kind == 1 && x.second >= 2) { Poly t; int k = x.second / 2, a = x.first; Mono q; for (auto &y : m) if (y.first != a) q.push_back(y); else if (y.second & 1) q.push_back({a, 1}); t[q] = c; for (int i = 0; i < k; i++) t = pmul(t, n_atoms[a].S); for (auto &y : t) padd(r, y.first, y.second); return; }
    padd(r, m, c); if (r.size() > 6000) throw NoNf();
}
static Poly pmul(const Poly &a, const Poly &b) {
    Poly r; if (a.size() * b.size() > 200000) throw NoNf();
    for (auto &x : a) for (auto &y : b) { Mono m; size_t i = 0, j = 0; while (i < x.first.size() || j < y.first.size()) { if (j == y.first.size() || (i < x.first.size() && x.first[i].first < y.first[j].first)) m.push_back(x.first[i++]); else if (i == x.first.size() || y.first[j].first < x.first[i].first) m.push_back(y.first[j++]); else { m.push_back({x.first[i].first, x.first[i].second + y.first[j].second}); i++; j++; } } pput(r, m, x.second * y.second); }
    return r;
}
static Poly padd2(const Poly &a, const Poly &b, int sg) { Poly r = a; for (auto &y : b) padd(r, y.first, sg < 0 ? mpq_class(-y.second) : y.second); return r; }
static Poly pscale(const Poly &a, const mpq_class &c) { Poly r; if (c != 0) for (auto &x : a) r[x.first] = x.second * c; return r; }
static int fac(const Poly &p) { auto r = n_fac.insert({p, (int)n_facs.size()}); if (r.second) n_facs.push_back(p); return r.first->second; }
static bool mgreater(const Mono &a, const Mono &b) { size_t i = 0; for (; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return a[i].first != b[i].first ? a[i].first < b[i].first : a[i].second > b[i].second; return a.size() > b.size(); }   // lexicographic, first atom greatest
static Poly::const_iterator plead(const Poly &p) { auto r = p.begin(); for (auto i = p.begin(); i != p.end(); ++i) if (mgreater(i->first, r->first)) r = i; return r; }
static bool pdivide(const Poly &n, const Poly &d, Poly &q) {       // exact division
    Poly r = n; q.clear(); auto ld = plead(d); if (r.size() > 3000) return false;
    while (!r.empty()) { auto l = plead(r); Mono m; size_t j = 0; for (auto &x : ld->first) { while (j < l->first.size() && l->first[j].first < x.first) m.push_back(l->first[j++]); if (j == l->first.size() || l->first[j].first != x.first || l->first[j].second < x.second) return false; if (l->first[j].second > x.second) m.push_back({x.first, l->first[j].second - x.second}); j++; } while (j < l->first.size()) m.push_back(l->first[j++]);
        Poly t; t[m] = l->second / ld->second; padd(q, m, t[m]); Poly td = pmul(t, d); size_t was = r.size(); r = padd2(r, td, -1); if (r.size() > was + d.size() || q.size() > 3000) return false; }
    return true;
}
static int fac(const Poly &p);
static void fnorm(Frac &f) {       // cancel denominators
    if (f.n.empty()) { f.d.clear(); return; }
    { std::vector<std::pair<int, int>> add; for (auto &x : f.d) { const Poly &p = n_facs[x.first]; if (p.size() == 1 && n_atoms[p.begin()->first[0].first].kind == 1 && x.second >= 2) { const Poly &S = n_atoms[p.begin()->first[0].first].S; if (S.size() == 1) continue; int k = x.second / 2; x.second &= 1; mpq_class c = S.rbegin()->second; Poly S1 = pscale(S, 1 / c); for (int i = 0; i < k; i++) f.n = pscale(f.n, 1 / c); add.push_back({fac(S1), k}); } } for (auto &x : add) f.d[x.first] += x.second; }
    for (auto i = f.d.begin(); i != f.d.end();) { const Poly &p = n_facs[i->first]; Poly q; if (p.size() > 1) while (i->second > 0 && pdivide(f.n, p, q)) { f.n = q; i->second--; } if (!i->second) i = f.d.erase(i); else ++i; }
    for (auto i = f.d.begin(); i != f.d.end();) { const Poly &p = n_facs[i->first]; if (p.size() == 1) { int a = p.begin()->first[0].first, k = i->second; for (auto &x : f.n) { int e = 0; for (auto &y : x.first) if (y.first == a) e = y.second; k = std::min(k, e); } if (k) { Poly q; for (auto &x : f.n) { Mono m; for (auto &y : x.first) if (y.first != a) m.push_back(y); else if (y.second > k) m.push_back({a, y.second - k}); q[m] = x.second; } f.n = q; i->second -= k; } } if (!i->second) i = f.d.erase(i); else ++i; }
}
static Frac fadd(const Frac &a, const Frac &b, int sg) {
    Frac r; r.d = a.d; for (auto &x : b.d) r.d[x.first] = std::max(r.d[x.first], x.second); r.ob = a.ob; r.ob.insert(b.ob.begin(), b.ob.end());
    auto lift = [&](const Frac &f) { Poly n = f.n; for (auto &x : r.d) { auto i = f.d.find(x.first); int k = x.second - (i == f.d.end() ? 0 : i->second); while (k-- > 0) n = pmul(n, n_facs[x.first]); } return n; };
    r.n = padd2(lift(a), lift(b), sg); fnorm(r); return r;
}
static Frac fmul(const Frac &a, const Frac &b) { Frac r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto &x : b.d) r.d[x.first] += x.second; r.ob = a.ob; r.ob.insert(b.ob.begin(), b.ob.end()); fnorm(r); return r; }
static Frac finv(const Frac &a) {
    Frac r; if (a.n.empty()) throw NoNf(); r.ob = a.ob; r.n = pconst(1); for (auto &x : a.d) for (int k = 0; k < x.second; k++) r.n = pmul(r.n, n_facs[x.first]);
    if (!pisc(a.n)) r.ob.insert(obl(a.n, 0)); mpq_class c = a.n.rbegin()->second; r.n = pscale(r.n, 1 / c);
    if (a.n.size() == 1) { for (auto &x : a.n.begin()->first) r.d[fac(patom(x.first))] += x.second; } else r.d[fac(pscale(a.n, 1 / c))] += 1;
    fnorm(r); return r;
}
static bool issq(const mpq_class &c, mpq_class &r) { if (c < 0 || !mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false; mpz_class a = sqrt(c.get_num()), b = sqrt(c.get_den()); r = mpq_class(a, b); return true; }
static Frac psqrt(const Poly &p) {        // square root of a polynomial
    Frac r; if (p.empty()) return r; mpq_class c = p.rbegin()->second, q; if (c < 0) c = -c; Poly S = p; r.n = pconst(1); if (issq(c, q)) { S = pscale(p, 1 / c); r.n = pconst(q); } if (pisc(S) && pc(S) == 1) return r;
    auto i = n_sq.insert({S, (int)n_atoms.size()}); if (i.second) n_atoms.push_back({1, 0, S}); r.n = pmul(r.n, patom(i.first->second)); if (!pisc(S)) r.ob.insert(obl(S, 1)); return r;
}
static Frac fsqrt(const Frac &a) {
    Frac r = psqrt(a.n); r.ob.insert(a.ob.begin(), a.ob.end());
    for (auto &x : a.d) { const Poly &p = n_facs[x.first]; bool root = p.size() == 1 && n_atoms[p.begin()->first[0].first].kind == 1; if (!root) r.ob.insert(obl(p, 1)); if (x.second / 2) r.d[x.first] += x.second / 2; if (x.second & 1) { Frac s = finv(psqrt(p)); r = fmul(r, s); } }
    fnorm(r); return r;
}
static std::unordered_map<Expr *, Frac> n_memo; static std::unordered_set<Expr *> n_no; static std::map<std::pair<u64, std::vector<Poly>>, int> n_fun;
static Frac fatom(int kind, Expr *e) { auto i = n_opq.insert({e, (int)n_atoms.size()}); if (i.second) n_atoms.push_back({kind, e, Poly()}); Frac f; f.n = patom(i.first->second); return f; }
static const Frac &nf(Expr *e) {
    auto it = n_memo.find(e); if (it != n_memo.end()) return it->second; if (n_no.count(e)) throw NoNf();
    Frac r;
    try { switch (e->k) {
    case KCONST: { double d = e->w == 32 ? asf(e->c) : asd(e->c); if (!std::isfinite(d)) throw NoNf(); r.n = pconst(mpq_class(d)); break; }
    case KXOR: if (!isc(e->b) || e->b->c != 1ull << (e->w - 1)) throw NoNf(); r = nf(e->a); r.n = pscale(r.n, -1); break;
    case KFADD: r = fadd(nf(e->a), nf(e->b), 1); break; case KFSUB: r = fadd(nf(e->a), nf(e->b), -1); break; case KFMUL: r = fmul(nf(e->a), nf(e->b)); break;
    case KFDIV: r = fmul(nf(e->a), finv(nf(e->b))); break; case KFSQRT: r = fsqrt(nf(e->a)); break; case KFEXT: case KFTRUNC: r = nf(e->a); break;
    case KFUN: {
        if (e->c <= 1) try { const Frac f = nf(e->a); if (f.n.empty()) { r.n = pconst(e->c); r.ob = f.ob; break; }      // sin 0, cos 0
            if (f.d.empty() && f.n.size() == 1 && f.n.begin()->second == mpq_class(1, 2) && f.n.begin()->first.size() == 1 && f.n.begin()->first[0].second == 1) { const NAtom A = n_atoms[f.n.begin()->first[0].first]; if (A.kind == 2 && A.e->c == 4) { Frac X = nf(A.e->a), one, half; one.n = pconst(1); half.n = pconst(mpq_class(1, 2)); Frac s1 = fsqrt(fmul(half, fadd(one, X, -1))), s2 = fsqrt(fmul(half, fadd(one, X, 1))); r = e->c == 0 ? s1 : s2; r.ob.insert(s1.ob.begin(), s1.ob.end()); r.ob.insert(s2.ob.begin(), s2.ob.end()); r.ob.insert(f.ob.begin(), f.ob.end()); break; } }      // half of an inverse cosine
            if (f.d.empty() && f.n.size() == 1 && f.n.begin()->second == 1 && f.n.begin()->first.size() == 1 && f.n.begin()->first[0].second == 1) { const NAtom A = n_atoms[f.n.begin()->first[0].first]; if (A.kind == 2 && (A.e->c == 3 || A.e->c == 4)) { Frac X = nf(A.e->a), one; one.n = pconst(1); Frac s = fsqrt(fadd(one, fmul(X, X), -1)); if ((e->c == 0) == (A.e->c == 4)) r = s; else { r = X; r.ob.insert(s.ob.begin(), s.ob.end()); } r.ob.insert(f.ob.begin(), f.ob.end()); break; } } } catch (NoNf &) {}      // sine and cosine of the inverse functions
        std::vector<Poly> key; for (Expr *x : {e->a, e->b}) if (x) { try { const Frac &f = nf(x); if (f.d.empty()) { key.push_back(f.n); r.ob.insert(f.ob.begin(), f.ob.end()); continue; } } catch (NoNf &) {} key.push_back(patom(fatom(0, x).n.begin()->first[0].first)); }
        auto i = n_fun.insert({{e->c, key}, (int)n_atoms.size()}); if (i.second) n_atoms.push_back({2, e, Poly()}); r.n = patom(i.first->second); break; }
    case KCONCAT: { Expr *x, *y; if (sview(e, x, y) == 1) { r = nf(x); r.n = pscale(r.n, -1); } else r = fatom(0, e); break; }
    default: r = fatom(0, e); break;
    } } catch (NoNf &) { if (getenv("VPX_NF")) fprintf(stderr, "NoNf at %u op %d\n", e->id, e->k); n_no.insert(e); throw; }
    if (getenv("VPX_NF")) { fprintf(stderr, "E%u op%d = %s", e->id, e->k, pstr(r.n).c_str()); for (auto &x : r.d) fprintf(stderr, " / (%s)^%d", pstr(n_facs[x.first]).c_str(), x.second); fprintf(stderr, "\n"); }
    return n_memo[e] = r;
}
// z3 term of a polynomial; side conditions of the square roots in it
static std::map<int, Z3_ast> n_za; static std::set<int> n_need;
static Z3_ast zp(const Poly &p);
static Z3_ast zatom(int a) { if (n_atoms[a].kind == 1) { n_need.insert(a); auto i = n_za.find(a); if (i != n_za.end()) return i->second; char nm[24]; snprintf(nm, sizeof nm, "nS%d", a); return n_za[a] = rk(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SR)); } return zr(n_atoms[a].e); }
static Z3_ast zp(const Poly &p) {
    std::vector<Z3_ast> s; for (auto &x : p) { std::vector<Z3_ast> f{Z3_mk_numeral(Z, x.second.get_str().c_str(), SR)}; for (auto &y : x.first) for (int k = 0; k < y.second; k++) f.push_back(zatom(y.first)); s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(Z, (unsigned)f.size(), f.data())); }
    return s.empty() ? Z3_mk_real(Z, 0, 1) : s.size() == 1 ? s[0] : Z3_mk_add(Z, (unsigned)s.size(), s.data());
}
static void nsides(std::vector<Z3_ast> &out) { std::set<int> done; while (true) { int a = -1; for (int x : n_need) if (!done.count(x)) { a = x; break; } if (a < 0) break; done.insert(a); Z3_ast s = zatom(a), S = zp(n_atoms[a].S), z0 = Z3_mk_real(Z, 0, 1); out.push_back(zimp(Z3_mk_ge(Z, S, z0), zand2(Z3_mk_ge(Z, s, z0), Z3_mk_eq(Z, zmul(s, s), S)))); } }
// the value of a comparison when both sides differ by a constant: 0 / 1, or -1; obligations in ob
static int ncmp(Expr *e, std::set<int> &ob) {
    if (e->k != KFEQ && e->k != KFLT && e->k != KFLE) return -1;
    try { Frac f = fadd(nf(e->a), nf(e->b), -1); mpq_class c; if (f.n.empty()) c = 0; else { Poly D = pconst(1); for (auto &x : f.d) for (int k = 0; k < x.second; k++) D = pmul(D, n_facs[x.first]); if (f.n.rbegin()->first != D.rbegin()->first) return -1; c = f.n.rbegin()->second / D.rbegin()->second; if (!padd2(f.n, pscale(D, c), -1).empty()) return -1; }
        ob = f.ob; return e->k == KFEQ ? c == 0 : e->k == KFLT ? c < 0 : c <= 0; } catch (NoNf &) { return -1; }
}
static void ndump(Expr *e) { try { Frac f = fadd(nf(e->a), nf(e->b), -1); fprintf(stderr, "   (%s)", pstr(f.n).c_str()); for (auto &x : f.d) fprintf(stderr, " / (%s)^%d", pstr(n_facs[x.first]).c_str(), x.second); fprintf(stderr, "\n"); } catch (NoNf &) { fprintf(stderr, "   none\n"); } for (size_t i = 0; i < n_atoms.size(); i++) if (n_atoms[i].kind == 1) fprintf(stderr, "      a%zu = sqrt %s\n", i, pstr(n_atoms[i].S).c_str()); else fprintf(stderr, "      a%zu kind %d op %d\n", i, n_atoms[i].kind, n_atoms[i].e->k); }
