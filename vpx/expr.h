// Bit-vector / floating-point expression DAG: hash-consed, constant-folded, evaluated natively, translated to Z3 on demand.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
enum K : u8 { KCONST, KVAR, KADD, KSUB, KMUL, KUDIV, KSDIV, KUREM, KSREM, KAND, KOR, KXOR, KSHL, KLSHR, KASHR, KEQ, KULT, KULE, KSLT, KSLE,
              KITE, KCONCAT, KEXTRACT, KZEXT, KSEXT, KFADD, KFSUB, KFMUL, KFDIV, KFREM, KFSQRT, KFEQ, KFLT, KFLE, KFUNO, KF2S, KF2U, KS2F, KU2F, KFEXT, KFTRUNC, KFROUND, KFUN };
struct Expr {
    K k; u8 w; bool fp; u32 id; u64 c; Expr *a, *b, *d; size_t h; u64 sh; std::vector<u32> *sup;
    u64 um; u64 ev; u32 epoch; Z3_ast z; std::array<u64, 4> *truth;
};
static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }
struct EHash { size_t operator()(const Expr *e) const { return e->h; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const { return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<Expr *, EHash, EEq> g_exprs;
static u32 g_nexpr; static std::vector<u32> g_nosup;
static std::vector<u8> g_varw;           // width of each variable
static float asf(u64 v) { float f; u32 u = (u32)v; memcpy(&f, &u, 4); return f; }
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromf(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static u64 fromd(double d) { u64 u; memcpy(&u, &d, 8); return u; }

static const struct { const char *n; bool two; double (*f)(double); double (*g)(double, double); } g_fun[] = {{"sin", 0, sin, 0}, {"cos", 0, cos, 0}, {"tan", 0, tan, 0}, {"asin", 0, asin, 0}, {"acos", 0, acos, 0}, {"atan", 0, atan, 0}, {"exp", 0, exp, 0}, {"log", 0, log, 0}, {"log10", 0, log10, 0}, {"exp2", 0, exp2, 0}, {"log2", 0, log2, 0}, {"pow", 1, 0, pow}, {"atan2", 1, 0, atan2}};
// one operation on concrete values; aw = operand width
static u64 fold(K k, int w, int aw, u64 a, u64 b, u64 c) {
    u64 m = mask(w);
    switch (k) {
    case KADD: return (a + b) & m; case KSUB: return (a - b) & m; case KMUL: return (a * b) & m;
    case KUDIV: return b ? (a / b) & m : m; case KUREM: return b ? (a % b) & m : a;
    case KSDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case KSREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case KAND: return a & b; case KOR: return a | b; case KXOR: return a ^ b;
    case KSHL: return b >= (u64)w ? 0 : (a << b) & m; case KLSHR: return b >= (u64)w ? 0 : a >> b;
    case KASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= (u64)w ? w - 1 : b)) & m; }
    case KEQ: return a == b; case KULT: return a < b; case KULE: return a <= b;
    case KSLT: return sx(a, aw) < sx(b, aw); case KSLE: return sx(a, aw) <= sx(b, aw);
    case KEXTRACT: return (a >> c) & m; case KZEXT: return a; case KSEXT: return (u64)sx(a, aw) & m;
    case KFADD: return w == 32 ? fromf(asf(a) + asf(b)) : fromd(asd(a) + asd(b));
    case KFSUB: return w == 32 ? fromf(asf(a) - asf(b)) : fromd(asd(a) - asd(b));
    case KFMUL: return w == 32 ? fromf(asf(a) * asf(b)) : fromd(asd(a) * asd(b));
    case KFDIV: return w == 32 ? fromf(asf(a) / asf(b)) : fromd(asd(a) / asd(b));
    case KFREM: return w == 32 ? fromf(fmodf(asf(a), asf(b))) : fromd(fmod(asd(a), asd(b)));
    case KFSQRT: return w == 32 ? fromf(sqrtf(asf(a))) : fromd(sqrt(asd(a)));
    case KFROUND: { double x = w == 32 ? asf(a) : asd(a); double r = c == 0 ? floor(x) : c == 1 ? ceil(x) : c == 2 ? trunc(x) : c == 3 ? round(x) : rint(x); return w == 32 ? fromf((float)r) : fromd(r); }
    case KFEQ: return aw == 32 ? asf(a) == asf(b) : asd(a) == asd(b);
    case KFLT: return aw == 32 ? asf(a) < asf(b) : asd(a) < asd(b);
    case KFLE: return aw == 32 ? asf(a) <= asf(b) : asd(a) <= asd(b);
    case KFUNO: return aw == 32 ? (std::isnan(asf(a)) || std::isnan(asf(b))) : (std::isnan(asd(a)) || std::isnan(asd(b)));
    case KF2S: { double x = aw == 32 ? asf(a) : asd(a); if (w == 64) { if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 1ull << 63; return (u64)(i64)x; }
                 if (w == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 1ull << 31; return (u64)(i64)x & m; }
                 if (!(x > -2147483649.0 && x < 2147483648.0)) return 0; return (u64)(i64)x & m; }
    case KF2U: { double x = aw == 32 ? asf(a) : asd(a); if (w == 64) { if (x >= 9223372036854775808.0) { if (x >= 18446744073709551616.0) return 0; return (u64)x; } if (!(x >= -9223372036854775808.0)) return 1ull << 63; return (u64)(i64)x; }
                 if (!(x > -9223372036854775808.0 && x < 9223372036854775808.0)) return 0; return (u64)(i64)x & m; }
    case KS2F: return w == 32 ? fromf((float)sx(a, aw)) : fromd((double)sx(a, aw));
    case KU2F: return w == 32 ? fromf((float)a) : fromd((double)a);
    case KFEXT: return fromd((double)asf(a)); case KFTRUNC: return fromf((float)asd(a));
    case KFUN: { double x = w == 32 ? asf(a) : asd(a), y = w == 32 ? asf(b) : asd(b), r = g_fun[c].two ? g_fun[c].g(x, y) : g_fun[c].f(x); return w == 32 ? fromf((float)r) : fromd(r); }
    default: return 0;
    }
}
static int bitlen(u64 v) { return v ? 64 - __builtin_clzll(v) : 0; }
// upper bound of an operation's unsigned value from the operands' bounds
static u64 umaxop(K k, int w, u64 A, u64 B, u64 m) {
    switch (k) {
    case KADD: return (A + B < A || A + B > m) ? m : A + B;
    case KMUL: { unsigned __int128 p = (unsigned __int128)A * B; return p > m ? m : (u64)p; }
    case KAND: return A < B ? A : B; case KOR: case KXOR: { int l = bitlen(A | B); return l >= 64 ? m : ((1ull << l) - 1) & m; }
    case KUDIV: return m; case KUREM: return B ? (A < B - 1 ? A : B - 1) : A;
    default: return m; }
}
// interval of a floating-point expression (outward rounded); infinite when unknown
static std::unordered_map<Expr *, std::pair<double, double>> g_iv;
static std::pair<double, double> iv(Expr *e) {
    auto it = g_iv.find(e); if (it != g_iv.end()) return it->second; double I = INFINITY, lo = -I, hi = I; auto out = [&](double l, double h) { if (std::isnan(l) || std::isnan(h)) { lo = -I; hi = I; return; } double k = e->w == 32 ? 1e-6 : 1e-15; lo = l == 0 ? 0 : l - fabs(l) * k; hi = h == 0 ? 0 : h + fabs(h) * k; };
    switch (e->k) {
    case KCONST: lo = hi = e->w == 32 ? asf(e->c) : asd(e->c); if (std::isnan(lo)) { lo = -I; hi = I; } break;
    case KU2F: out(0, (double)e->a->um); break;
    case KS2F: if (e->a->um < (mask(e->a->w) >> 1) + 1) out(0, (double)e->a->um); else out(-ldexp(1.0, e->a->w - 1), ldexp(1.0, e->a->w - 1)); break;
    case KFADD: { auto a = iv(e->a), b = iv(e->b); out(a.first + b.first, a.second + b.second); break; }
    case KFSUB: { auto a = iv(e->a), b = iv(e->b); out(a.first - b.second, a.second - b.first); break; }
    case KFMUL: { auto a = iv(e->a), b = iv(e->b); double p[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second}; bool n = false; for (double v : p) n |= std::isnan(v); if (!n) out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case KFEXT: { auto a = iv(e->a); lo = a.first; hi = a.second; break; }
    case KITE: { auto a = iv(e->b), b = iv(e->d); lo = std::min(a.first, b.first); hi = std::max(a.second, b.second); break; }
    default: break; }
    return g_iv[e] = {lo, hi};
}
static u64 umax_of(Expr *e) {
    u64 m = mask(e->w);
    switch (e->k) {
    case KCONST: return e->c; case KZEXT: return e->a->um; case KITE: return e->b->um > e->d->um ? e->b->um : e->d->um;
    case KADD: case KMUL: case KAND: case KOR: case KXOR: return umaxop(e->k, e->w, e->a->um, e->b->um, m);
    case KUDIV: return e->b->k == KCONST && e->b->c ? e->a->um / e->b->c : m;
    case KUREM: return e->b->k == KCONST && e->b->c ? (e->a->um < e->b->c - 1 ? e->a->um : e->b->c - 1) : e->a->um;
    case KF2S: case KF2U: { auto b = iv(e->a); return b.first >= 0 && b.second < ldexp(1.0, e->w - 1) ? (u64)b.second : m; }
    case KEXTRACT: { u64 v = e->a->um >> e->c; return v > m ? m : v; }
    case KCONCAT: return (e->a->um << e->b->w) | e->b->um | (e->a->um ? mask(e->b->w) : 0);
    default: return m; }
}
static Expr *mk(K k, int w, u64 c, Expr *a, Expr *b, Expr *d) {
    Expr t; t.k = k; t.w = (u8)w; t.c = c; t.a = a; t.b = b; t.d = d;
    size_t h = k * 1000003u + w * 97 + c * 0x9E3779B97F4A7C15ull; h ^= (size_t)(a ? a->id + 1 : 0) * 0xC2B2AE3D27D4EB4Full; h = (h << 13) | (h >> 51); h ^= (size_t)(b ? b->id + 1 : 0) * 0x165667B19E3779F9ull; h = (h << 17) | (h >> 47); h ^= (size_t)(d ? d->id + 1 : 0) * 0x27D4EB2F165667C5ull; h ^= h >> 29;
    t.h = h;
    auto it = g_exprs.find(&t); if (it != g_exprs.end()) return *it;
    Expr *e = new Expr(t); e->id = g_nexpr++; { u64 q = (u64)k * 0x9E3779B97F4A7C15ull + w; const u64 in[4] = {c, a ? a->sh : 1, b ? b->sh : 2, d ? d->sh : 3}; for (u64 v : in) { q ^= v; q *= 0xff51afd7ed558ccdull; q ^= q >> 32; } e->sh = q; } e->epoch = 0; e->ev = 0; e->z = 0; e->truth = 0;
    e->fp = (k >= KFADD) || (a && a->fp) || (b && b->fp) || (d && d->fp);
    if (k == KVAR) { e->sup = new std::vector<u32>(1, (u32)c); }
    else {
        Expr *o[3] = {a, b, d}; std::vector<u32> *best = &g_nosup; bool merge = false;
        for (Expr *x : o) if (x && !x->sup->empty()) { if (best->empty()) best = x->sup; else if (best != x->sup && *best != *x->sup) merge = true; }
        if (merge) { auto *v = new std::vector<u32>(); for (Expr *x : o) if (x) v->insert(v->end(), x->sup->begin(), x->sup->end()); std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); e->sup = v; }
        else e->sup = best;
    }
    e->um = umax_of(e);
    g_exprs.insert(e); return e;
}
static Expr *mkc(u64 v, int w) { return mk(KCONST, w, v & mask(w), 0, 0, 0); }
static inline bool isc(Expr *e) { return e->k == KCONST; }
static Expr *mkbin(K k, Expr *a, Expr *b);
static Expr *mkite(Expr *c, Expr *a, Expr *b);
static Expr *mknot(Expr *a) { return mkbin(KXOR, a, mkc(1, 1)); }
static Expr *mkextract(Expr *a, int lo, int w);
static Expr *mkzext(Expr *a, int w) {
    if (a->w == w) return a; if (isc(a)) return mkc(a->c, w);
    if (a->k == KZEXT) return mk(KZEXT, w, 0, a->a, 0, 0);
    return mk(KZEXT, w, 0, a, 0, 0);
}
static Expr *mksext(Expr *a, int w) {
    if (a->w == w) return a; if (isc(a)) return mkc((u64)sx(a->c, a->w), w);
    if (a->k == KZEXT) return mkzext(a->a, w);
    if (a->k == KSEXT) return mk(KSEXT, w, 0, a->a, 0, 0);
    return mk(KSEXT, w, 0, a, 0, 0);
}
static Expr *mkextract(Expr *a, int lo, int w) {
    if (lo == 0 && a->w == w) return a; if (isc(a)) return mkc(a->c >> lo, w);
    if (a->k == KEXTRACT) return mkextract(a->a, lo + (int)a->c, w);
    if (a->k == KZEXT) { if (lo >= a->a->w) return mkc(0, w); if (lo + w <= a->a->w) return mkextract(a->a, lo, w); if (lo == 0) return mkzext(a->a, w); return mkzext(mkextract(a->a, lo, a->a->w - lo), w); }
    if (a->k == KSEXT) { if (lo + w <= a->a->w) return mkextract(a->a, lo, w); if (lo == 0) return mksext(a->a, w); }
    if (a->k == KCONCAT) { int lw = a->b->w; if (lo + w <= lw) return mkextract(a->b, lo, w); if (lo >= lw) return mkextract(a->a, lo - lw, w); }
    if (a->k == KITE && (isc(a->b) || isc(a->d) || a->b->k == KZEXT || a->d->k == KZEXT)) return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->d, lo, w));
    if ((a->k == KAND || a->k == KOR || a->k == KXOR)) return mkbin(a->k, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
    if (lo == 0 && (a->k == KADD || a->k == KSUB || a->k == KMUL) && (isc(a->b) || a->b->k == KZEXT || a->a->k == KZEXT || a->a->k == KSEXT)) return mkbin(a->k, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
    return mk(KEXTRACT, w, (u64)lo, a, 0, 0);
}
static Expr *mkconcat(Expr *hi, Expr *lo) {   // width <= 64
    int w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
    if (isc(hi) && hi->c == 0) return mkzext(lo, w);
    if (hi->k == KZEXT) return mkzext(mkconcat(hi->a, lo), w);
    if (hi->k == KEXTRACT) {
        if (lo->k == KEXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkextract(hi->a, (int)lo->c, w);
        if (hi->a == lo && hi->c == lo->w) return mkextract(lo, 0, w);
        if (lo->w == hi->c && hi->a->k != KCONST && lo->k != KEXTRACT && mkextract(hi->a, 0, lo->w) == lo) return mkextract(hi->a, 0, w);
    }
    if (lo->k == KZEXT && isc(hi)) { /* keep */ }
    return mk(KCONCAT, w, 0, hi, lo, 0);
}
static Expr *mkite(Expr *c, Expr *a, Expr *b) {
    if (isc(c)) return c->c ? a : b; if (a == b) return a;
    if (a->w == 1 && isc(a) && isc(b)) return a->c ? c : mknot(c);
    if (a->w == 1 && isc(b) && !b->c) return mkbin(KAND, c, a);
    if (a->w == 1 && isc(a) && a->c) return mkbin(KOR, c, b);
    if (c->k == KXOR && c->w == 1 && isc(c->b)) return mkite(c->a, b, a);
    if (b->k == KITE && b->a == c) b = b->d;
    if (a->k == KITE && a->a == c) a = a->b;
    if (a == b) return a;
    return mk(KITE, a->w, 0, c, a, b);
}
static bool commut(K k) { return k == KADD || k == KMUL || k == KAND || k == KOR || k == KXOR || k == KEQ; }
static Expr *mkbin(K k, Expr *a, Expr *b) {
    int w = (k >= KEQ && k <= KSLE) || (k >= KFEQ && k <= KFUNO) ? 1 : a->w;
    if (isc(a) && isc(b)) return mkc(fold(k, w, a->w, a->c, b->c, 0), w);
    if (commut(k) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
    u64 m = mask(a->w);
    if ((k == KSDIV || k == KSREM) && a->um < (m >> 1) + 1 && b->um < (m >> 1) + 1) { if (!(isc(b) && !b->c)) k = k == KSDIV ? KUDIV : KUREM; }
    if ((k == KSLT || k == KSLE) && a->um < (m >> 1) + 1 && b->um < (m >> 1) + 1) k = k == KSLT ? KULT : KULE;
    if (a->w > 8) {      // narrow operations whose operands and result provably fit fewer bits
        u64 r; bool ok = true;
        switch (k) { case KADD: case KMUL: case KAND: case KOR: case KXOR: r = umaxop(k, w, a->um, b->um, m); break; case KUDIV: r = a->um; ok = isc(b) && b->c; break; case KUREM: r = a->um; ok = isc(b) && b->c; break; case KEQ: case KULT: case KULE: r = 0; break; default: ok = false; r = 0; }
        if (ok) { int need = std::max(bitlen(r), std::max(bitlen(a->um), bitlen(b->um))); if (need == 0) need = 1; int tw = need <= 8 ? 8 : need <= 16 ? 16 : need <= 24 ? 24 : need <= 32 ? 32 : need <= 48 ? 48 : 64;
            if (tw < a->w && (r < m || k == KAND || w == 1)) { Expr *n = mkbin(k, mkextract(a, 0, tw), mkextract(b, 0, tw)); return w == 1 ? n : mkzext(n, w); } }
    }
    switch (k) {
    case KADD: if (isc(b)) { if (!b->c) return a; if (a->k == KADD && isc(a->b)) return mkbin(KADD, a->a, mkc(a->b->c + b->c, w));
                   if (a->k == KITE && isc(a->b) && isc(a->d)) return mkite(a->a, mkbin(k, a->b, b), mkbin(k, a->d, b)); } break;
    case KSUB: if (a == b) return mkc(0, w); if (isc(b)) return mkbin(KADD, a, mkc(0 - b->c, w));
               if (a->k == KADD && a->a == b) return a->b; if (a->k == KADD && a->b == b) return a->a;
               if (a->k == KADD && b->k == KADD && isc(a->b) && isc(b->b) && a->a == b->a) return mkc(a->b->c - b->b->c, w);
               if (a->k == KADD && isc(a->b) && b->k == KADD && isc(b->b)) return mkbin(KADD, mkbin(KSUB, a->a, b->a), mkc(a->b->c - b->b->c, w)); break;
    case KMUL: if (isc(b)) { if (!b->c) return b; if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) return mkbin(KSHL, a, mkc(__builtin_ctzll(b->c), w)); } break;
    case KUDIV: if (isc(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mkbin(KLSHR, a, mkc(__builtin_ctzll(b->c), w)); } break;
    case KUREM: if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return mkbin(KAND, a, mkc(b->c - 1, w)); break;
    case KSDIV: case KSREM: if (isc(b) && sx(b->c, w) > 0 && a->k == KZEXT) return mkbin(k == KSDIV ? KUDIV : KUREM, a, b); break;
    case KAND: if (a == b) return a; if (isc(b)) { if (!b->c) return b; if (b->c == m) return a; if (a->k == KAND && isc(a->b)) return mkbin(KAND, a->a, mkc(a->b->c & b->c, w));
                   if (a->k == KZEXT) { u64 im = mask(a->a->w); if ((b->c & im) == im) return a; return mkzext(mkbin(KAND, a->a, mkc(b->c & im, a->a->w)), w); } } break;
    case KOR: if (a == b) return a; if (isc(b)) { if (!b->c) return a; if (b->c == m) return b; } break;
    case KXOR: if (a == b) return mkc(0, w); if (isc(b)) { if (!b->c) return a; if (a->k == KXOR && isc(a->b)) return mkbin(KXOR, a->a, mkc(a->b->c ^ b->c, w));
                   if (w == 1) { if (a->k == KULT) return mkbin(KULE, a->b, a->a); if (a->k == KULE) return mkbin(KULT, a->b, a->a); if (a->k == KSLT) return mkbin(KSLE, a->b, a->a); if (a->k == KSLE) return mkbin(KSLT, a->b, a->a); } } break;
    case KSHL: case KLSHR: if (isc(b)) { if (!b->c) return a; if (b->c >= (u64)w) return mkc(0, w);
                   if (k == KLSHR) return mkzext(mkextract(a, (int)b->c, w - (int)b->c), w);
                   return mkconcat(mkextract(a, 0, w - (int)b->c), mkc(0, (int)b->c)); } if (isc(a) && !a->c) return a; break;
    case KASHR: if (isc(b)) { if (!b->c) return a; int s = b->c >= (u64)w ? w - 1 : (int)b->c; return mksext(mkextract(a, s, w - s), w); } break;
    case KEQ:
        if (a == b) return mkc(1, 1);
        if (isc(b)) {
            if (a->w == 1) return b->c ? a : mknot(a);
            if (a->k == KZEXT) { if (b->c > mask(a->a->w)) return mkc(0, 1); return mkbin(KEQ, a->a, mkc(b->c, a->a->w)); }
            if (a->k == KSEXT) { if (((u64)sx(b->c & mask(a->a->w), a->a->w) & m) != b->c) return mkc(0, 1); return mkbin(KEQ, a->a, mkc(b->c, a->a->w)); }
            if (a->k == KADD && isc(a->b)) return mkbin(KEQ, a->a, mkc(b->c - a->b->c, a->w));
            if (a->k == KXOR && isc(a->b)) return mkbin(KEQ, a->a, mkc(b->c ^ a->b->c, a->w));
            if (a->k == KITE && (isc(a->b) || isc(a->d) || a->b->k == KZEXT || a->d->k == KZEXT)) return mkite(a->a, mkbin(KEQ, a->b, b), mkbin(KEQ, a->d, b));
            if (a->k == KCONCAT) return mkbin(KAND, mkbin(KEQ, a->a, mkc(b->c >> a->b->w, a->a->w)), mkbin(KEQ, a->b, mkc(b->c, a->b->w)));
        } else {
            if (a->k == KZEXT && b->k == KZEXT && a->a->w == b->a->w) return mkbin(KEQ, a->a, b->a);
            if (a->k == KSEXT && b->k == KSEXT && a->a->w == b->a->w) return mkbin(KEQ, a->a, b->a);
            if (a->k == KADD && b->k == KADD && isc(a->b) && isc(b->b) && a->b == b->b) return mkbin(KEQ, a->a, b->a);
        }
        break;
    case KULT: case KULE:
        if (a == b) return mkc(k == KULE, 1);
        if (isc(b)) {
            if (k == KULT && !b->c) return mkc(0, 1); if (k == KULE && b->c == m) return mkc(1, 1);
            if (a->k == KZEXT) { u64 im = mask(a->a->w); if (b->c > im) return mkc(1, 1); return mkbin(k, a->a, mkc(b->c, a->a->w)); }
        }
        if (isc(a)) {
            if (k == KULT && a->c == m) return mkc(0, 1); if (k == KULE && !a->c) return mkc(1, 1);
            if (b->k == KZEXT) { u64 im = mask(b->a->w); if (a->c > im) return mkc(0, 1); return mkbin(k, mkc(a->c, b->a->w), b->a); }
        }
        if (a->k == KZEXT && b->k == KZEXT && a->a->w == b->a->w) return mkbin(k, a->a, b->a);
        break;
    case KSLT: case KSLE:
        if (a == b) return mkc(k == KSLE, 1);
        if (a->k == KZEXT && (b->k == KZEXT || (isc(b) && sx(b->c, b->w) >= 0))) return mkbin(k == KSLT ? KULT : KULE, a, b);
        if (b->k == KZEXT && isc(a) && sx(a->c, a->w) >= 0) return mkbin(k == KSLT ? KULT : KULE, a, b);
        if (a->k == KZEXT && isc(b)) return mkc(0, 1);      // nonneg < neg
        if (b->k == KZEXT && isc(a)) return mkc(1, 1);      // neg < nonneg
        if (a->k == KSEXT && b->k == KSEXT && a->a->w == b->a->w) return mkbin(k, a->a, b->a);
        if (a->k == KSEXT && isc(b)) { i64 v = sx(b->c, b->w); int iw = a->a->w; i64 lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1; if (v >= lo && v <= hi) return mkbin(k, a->a, mkc((u64)v, iw)); return mkc(v > hi, 1); }
        if (b->k == KSEXT && isc(a)) { i64 v = sx(a->c, a->w); int iw = b->a->w; i64 lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1; if (v >= lo && v <= hi) return mkbin(k, mkc((u64)v, iw), b->a); return mkc(v < lo, 1); }
        break;
    default: break;
    }
    return mk(k, w, 0, a, b, 0);
}
static Expr *mkun(K k, int w, Expr *a, u64 c = 0) { if (isc(a)) return mkc(fold(k, w, a->w, a->c, 0, c), w); return mk(k, w, c, a, 0, 0); }

// ---- evaluation under an assignment of the variables
static u32 g_epoch = 1;
static u64 ev(Expr *e, const u64 *model) {
    if (e->k == KCONST) return e->c; if (e->k == KVAR) return model[e->c];
    if (e->epoch == g_epoch) return e->ev;
    u64 r;
    if (e->k == KITE) r = ev(e->a, model) ? ev(e->b, model) : ev(e->d, model);
    else if (e->k == KCONCAT) r = (ev(e->a, model) << e->b->w) | ev(e->b, model);
    else r = fold(e->k, e->w, e->a->w, ev(e->a, model), e->b ? ev(e->b, model) : 0, e->c);
    e->epoch = g_epoch; e->ev = r; return r;
}
static u64 eval(Expr *e, const std::vector<u64> &m) { g_epoch++; return ev(e, m.data()); }
// truth set of a 1-bit expression over exactly one 8-bit variable
static const std::array<u64, 4> &truth(Expr *e, std::vector<u64> &scratch) {
    if (e->truth) return *e->truth;
    auto *t = new std::array<u64, 4>(); t->fill(0); u32 v = (*e->sup)[0]; if (scratch.size() <= v) scratch.resize(v + 1);
    for (int i = 0; i < 256; i++) { scratch[v] = i; g_epoch++; if (ev(e, scratch.data())) (*t)[i >> 6] |= 1ull << (i & 63); }
    e->truth = t; return *t;
}

// ---- Z3
static Z3_context Z; static Z3_ast g_rm, g_rtz; 
static Z3_sort fsort(int w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast zx(Expr *e);
static Z3_ast zand2(Z3_ast a, Z3_ast b) { Z3_ast o[2] = {a, b}; return Z3_mk_and(Z, 2, o); }
static Z3_ast zf(Expr *e) { return Z3_mk_fpa_to_fp_bv(Z, zx(e), fsort(e->w)); }
static Z3_ast zb(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); }
static Z3_ast zbool(Expr *e);
static Z3_ast ztob(Z3_ast fpv) { return Z3_mk_fpa_to_ieee_bv(Z, fpv); }
static Z3_ast zx(Expr *e) {
    if (e->z) return e->z;
    Z3_ast r = 0; Z3_sort s = Z3_mk_bv_sort(Z, e->w);
    switch (e->k) {
    case KCONST: r = Z3_mk_unsigned_int64(Z, e->c, s); break;
    case KVAR: { char nm[24]; snprintf(nm, sizeof nm, "n%llu", (unsigned long long)e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), s); break; }
    case KADD: r = Z3_mk_bvadd(Z, zx(e->a), zx(e->b)); break; case KSUB: r = Z3_mk_bvsub(Z, zx(e->a), zx(e->b)); break;
    case KMUL: r = Z3_mk_bvmul(Z, zx(e->a), zx(e->b)); break; case KUDIV: r = Z3_mk_bvudiv(Z, zx(e->a), zx(e->b)); break;
    case KSDIV: r = Z3_mk_bvsdiv(Z, zx(e->a), zx(e->b)); break; case KUREM: r = Z3_mk_bvurem(Z, zx(e->a), zx(e->b)); break;
    case KSREM: r = Z3_mk_bvsrem(Z, zx(e->a), zx(e->b)); break; case KAND: r = Z3_mk_bvand(Z, zx(e->a), zx(e->b)); break;
    case KOR: r = Z3_mk_bvor(Z, zx(e->a), zx(e->b)); break; case KXOR: r = Z3_mk_bvxor(Z, zx(e->a), zx(e->b)); break;
    case KSHL: r = Z3_mk_bvshl(Z, zx(e->a), zx(e->b)); break; case KLSHR: r = Z3_mk_bvlshr(Z, zx(e->a), zx(e->b)); break;
    case KASHR: r = Z3_mk_bvashr(Z, zx(e->a), zx(e->b)); break;
    case KEQ: case KULT: case KULE: case KSLT: case KSLE: case KFEQ: case KFLT: case KFLE: case KFUNO: r = zb(zbool(e)); break;
    case KITE: r = Z3_mk_ite(Z, zbool(e->a), zx(e->b), zx(e->d)); break;
    case KCONCAT: r = Z3_mk_concat(Z, zx(e->a), zx(e->b)); break;
    case KEXTRACT: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, zx(e->a)); break;
    case KZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zx(e->a)); break;
    case KSEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zx(e->a)); break;
    case KFADD: r = ztob(Z3_mk_fpa_add(Z, g_rm, zf(e->a), zf(e->b))); break; case KFSUB: r = ztob(Z3_mk_fpa_sub(Z, g_rm, zf(e->a), zf(e->b))); break;
    case KFMUL: r = ztob(Z3_mk_fpa_mul(Z, g_rm, zf(e->a), zf(e->b))); break; case KFDIV: r = ztob(Z3_mk_fpa_div(Z, g_rm, zf(e->a), zf(e->b))); break;
    case KFREM: r = ztob(Z3_mk_fpa_rem(Z, zf(e->a), zf(e->b))); break; /* only reached symbolically via vpx's refusal */
    case KFSQRT: r = ztob(Z3_mk_fpa_sqrt(Z, g_rm, zf(e->a))); break;
    case KFROUND: { Z3_ast m = e->c == 0 ? Z3_mk_fpa_rtn(Z) : e->c == 1 ? Z3_mk_fpa_rtp(Z) : e->c == 2 ? g_rtz : e->c == 3 ? Z3_mk_fpa_rna(Z) : g_rm; r = ztob(Z3_mk_fpa_round_to_integral(Z, m, zf(e->a))); break; }
    case KF2S: case KF2U: {  /* x86: out-of-range conversions give the indefinite value */
        Z3_ast f = zf(e->a); Z3_sort fs = fsort(e->a->w); int w = e->w; double lim = w == 64 ? 9223372036854775808.0 : 2147483648.0;
        if (e->k == KF2U) { lim = w == 64 ? 18446744073709551616.0 : 9223372036854775808.0; r = Z3_mk_ite(Z, zand2(Z3_mk_fpa_gt(Z, f, Z3_mk_fpa_numeral_double(Z, -1.0, fs)), Z3_mk_fpa_lt(Z, f, Z3_mk_fpa_numeral_double(Z, lim, fs))), Z3_mk_fpa_to_ubv(Z, g_rtz, f, w), Z3_mk_unsigned_int64(Z, 0, s)); break; }
        Z3_ast lo = w == 64 ? Z3_mk_fpa_geq(Z, f, Z3_mk_fpa_numeral_double(Z, -lim, fs)) : (e->a->w == 64 ? Z3_mk_fpa_gt(Z, f, Z3_mk_fpa_numeral_double(Z, -lim - 1, fs)) : Z3_mk_fpa_geq(Z, f, Z3_mk_fpa_numeral_double(Z, -lim, fs)));
        r = Z3_mk_ite(Z, zand2(lo, Z3_mk_fpa_lt(Z, f, Z3_mk_fpa_numeral_double(Z, lim, fs))), Z3_mk_fpa_to_sbv(Z, g_rtz, f, w), Z3_mk_unsigned_int64(Z, w >= 32 ? 1ull << (w - 1) : 0, s)); break; }
    case KS2F: r = ztob(Z3_mk_fpa_to_fp_signed(Z, g_rm, zx(e->a), fsort(e->w))); break;
    case KU2F: r = ztob(Z3_mk_fpa_to_fp_unsigned(Z, g_rm, zx(e->a), fsort(e->w))); break;
    case KFEXT: case KFTRUNC: r = ztob(Z3_mk_fpa_to_fp_float(Z, g_rm, zf(e->a), fsort(e->w))); break;
    }
    Z3_inc_ref(Z, r); e->z = r; return r;
}
static Z3_ast zbool(Expr *e) {
    switch (e->k) {
    case KCONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case KEQ: return Z3_mk_eq(Z, zx(e->a), zx(e->b)); case KULT: return Z3_mk_bvult(Z, zx(e->a), zx(e->b)); case KULE: return Z3_mk_bvule(Z, zx(e->a), zx(e->b));
    case KSLT: return Z3_mk_bvslt(Z, zx(e->a), zx(e->b)); case KSLE: return Z3_mk_bvsle(Z, zx(e->a), zx(e->b));
    case KFEQ: return Z3_mk_fpa_eq(Z, zf(e->a), zf(e->b)); case KFLT: return Z3_mk_fpa_lt(Z, zf(e->a), zf(e->b)); case KFLE: return Z3_mk_fpa_leq(Z, zf(e->a), zf(e->b));
    case KFUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(Z, zf(e->a)), Z3_mk_fpa_is_nan(Z, zf(e->b))}; return Z3_mk_or(Z, 2, o); }
    case KAND: { Z3_ast o[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(Z, 2, o); }
    case KOR: { Z3_ast o[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_or(Z, 2, o); }
    case KXOR: return Z3_mk_xor(Z, zbool(e->a), zbool(e->b));
    default: return Z3_mk_eq(Z, zx(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
    }
}
