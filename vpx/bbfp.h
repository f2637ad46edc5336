// Bit-blasting of IEEE binary32/binary64 operations (round to nearest even), operand and result as bit vectors.
#pragma once
static BV Bc(u64 v, int n) { BV r(n); for (int i = 0; i < n; i++) r[i] = i < 64 ? (v >> i) & 1 : 0; return r; }
static BV Bslice(const BV &a, int lo, int n) { return BV(a.begin() + lo, a.begin() + lo + n); }
static BV Bz(BV a, int n) { a.resize(n, 0); return a; }
static L Bany(const BV &a) { L r = 0; for (L l : a) r = Lor(r, l); return r; }
static L Ball(const BV &a) { L r = 1; for (L l : a) r = Land(r, l); return r; }
static BV Bsub(const BV &a, const BV &b) { return Badd(a, Bnot(b), 1); }
static BV Bsh1(const BV &a, int k, bool left) { int n = (int)a.size(); BV r(n, 0); for (int i = 0; i < n; i++) { int j = left ? i - k : i + k; if (j >= 0 && j < n) r[i] = a[j]; } return r; }
enum { FE = 14 };                    // working width of exponents (two's complement)
struct FU { L s, nan, inf, zero; BV e, m, mag; };        // value = m * 2^(e - mb), m with the hidden bit (not normalised for subnormals)
static FU Funpack(const BV &x) {
    int w = (int)x.size(), mb = w == 32 ? 23 : 52, eb = w - 1 - mb; FU u; BV fr = Bslice(x, 0, mb), ex = Bslice(x, mb, eb); u.s = x[w - 1]; u.mag = Bslice(x, 0, w - 1);
    L em = Ball(ex), ez = Bany(ex) ^ 1, fz = Bany(fr) ^ 1; u.nan = Land(em, fz ^ 1); u.inf = Land(em, fz); u.zero = Land(ez, fz);
    u.m = fr; u.m.push_back(ez ^ 1); BV e = Bz(ex, FE); e[0] = Lor(e[0], ez); u.e = Badd(e, Bc(~(u64)((1 << (eb - 1)) - 1) + 1, FE), 0); for (int i = 0; i < FE; i++) (void)0; return u;
}
static void Fnorm(BV &m, BV &e) {   // shift left until the top bit is set (or m is zero)
    int n = (int)m.size(), k = 1; while (k * 2 < n) k *= 2;
    for (; k; k >>= 1) { L hi = 0; for (int i = n - k; i < n; i++) hi = Lor(hi, m[i]); L sh = hi ^ 1; m = Bmux(sh, Bsh1(m, k, true), m); e = Bmux(sh, Bsub(e, Bc(k, FE)), e); }
}
static BV Fpackspecial(int w, L s, const BV &norm, L nan, L inf, L zero, L zs) {
    int mb = w == 32 ? 23 : 52; BV I = Bc(0, w), N = Bc(0, w), Z0 = Bc(0, w); for (int i = mb; i < w - 1; i++) I[i] = N[i] = 1; I[w - 1] = s; N[mb - 1] = 1; Z0[w - 1] = zs;
    return Bmux(nan, N, Bmux(inf, I, Bmux(zero, Z0, norm)));
}
// m (n bits, value m * 2^(e-(n-1))) and a sticky bit below, rounded to width w
static BV Fround(int w, L s, BV e, BV m, L sticky) {
    int mb = w == 32 ? 23 : 52, eb = w - 1 - mb, bias = (1 << (eb - 1)) - 1, n; if ((int)m.size() < mb + 3) { BV t(mb + 3 - m.size(), 0); t.insert(t.end(), m.begin(), m.end()); m = t; } n = (int)m.size();
    Fnorm(m, e); BV be = Badd(e, Bc(bias, FE), 0);           // biased exponent; <= 0: subnormal
    L sub = Lor(be[FE - 1], Bany(be) ^ 1); BV d = Bsub(Bc(1, FE), be); d = Bmux(sub, d, Bc(0, FE));     // right shift for subnormals
    L big = 0; int k = 0; for (; (1 << k) < n; k++) { L lost = 0; for (int i = 0; i < (1 << k) && i < n; i++) lost = Lor(lost, m[i]); sticky = Lor(sticky, Land(d[k], lost)); m = Bmux(d[k], Bsh1(m, 1 << k, false), m); }
    for (int i = k; i < FE; i++) big = Lor(big, d[i]); sticky = Lor(sticky, Land(big, Bany(m))); m = Bmux(big, Bc(0, n), m);
    BV q = Bslice(m, n - mb - 1, mb + 1); L g = m[n - mb - 2]; for (int i = 0; i < n - mb - 2; i++) sticky = Lor(sticky, m[i]);
    L up = Land(g, Lor(sticky, q[0])); BV ex = Bmux(sub, Bc(0, FE), be); // packed integer: (ex << mb) + fraction; the hidden bit adds one to ex of subnormals that reach it
    BV hid = Bc(0, FE); hid[0] = Land(sub, q[mb]); BV p = Bslice(q, 0, mb); BV ex2 = Badd(ex, hid, 0); p.insert(p.end(), ex2.begin(), ex2.end()); p = Badd(p, Bc(0, (int)p.size()), up);
    BV fe = Bslice(p, mb, FE); L ovf = Land(fe[FE - 1] ^ 1, Bult(Bc((1 << eb) - 1, FE), fe, 1)); L z = (Bany(m) ^ 1); (void)z;
    BV r = Bslice(p, 0, w - 1); r.push_back(s); BV I = Bc(0, w); for (int i = mb; i < w - 1; i++) I[i] = 1; I[w - 1] = s; return Bmux(ovf, I, r);
}
static BV Fadd(const BV &a, const BV &b0, bool sub) {
    int w = (int)a.size(), mb = w == 32 ? 23 : 52; BV b = b0; if (sub) b[w - 1] ^= 1; FU x = Funpack(a), y = Funpack(b); L sw = Bult(x.mag, y.mag, 0);
    BV eh = Bmux(sw, y.e, x.e), el = Bmux(sw, x.e, y.e), mh = Bmux(sw, y.m, x.m), ml = Bmux(sw, x.m, y.m); L sh = Lmux(sw, y.s, x.s), sl = Lmux(sw, x.s, y.s), op = Lxor(sh, sl);
    int n = mb + 1 + 3; auto ext = [&](const BV &m) { BV t(3, 0); t.insert(t.end(), m.begin(), m.end()); return t; }; BV H = ext(mh), Lo = ext(ml), d = Bsub(eh, el); L st = 0;
    int k = 0; for (; (1 << k) < n; k++) { L lost = 0; for (int i = 0; i < (1 << k) && i < n; i++) lost = Lor(lost, Lo[i]); st = Lor(st, Land(d[k], lost)); Lo = Bmux(d[k], Bsh1(Lo, 1 << k, false), Lo); }
    L big = 0; for (int i = k; i < FE; i++) big = Lor(big, d[i]); st = Lor(st, Land(big, Bany(Lo))); Lo = Bmux(big, Bc(0, n), Lo);
    // the shifted-out part makes a subtraction borrow one unit of the last kept place, leaving it sticky
    BV H1 = Bz(H, n + 1), L1 = Bz(Lo, n + 1); BV sum = Badd(H1, L1, 0), dif = Badd(H1, Bnot(L1), st ^ 1); BV m = Bmux(op, dif, sum);
    L nan = Lor(Lor(x.nan, y.nan), Land(Land(x.inf, y.inf), Lxor(x.s, y.s))), inf = Lor(x.inf, y.inf), si = Lmux(x.inf, x.s, y.s), zero = Land(Bany(m) ^ 1, st ^ 1), zs = Land(x.s, y.s);
    BV r = Fround(w, sh, Badd(eh, Bc(1, FE), 0), m, st); return Fpackspecial(w, si, r, nan, inf, zero, zs);
}
static BV Fmul(const BV &a, const BV &b) {
    int w = (int)a.size(), mb = w == 32 ? 23 : 52; FU x = Funpack(a), y = Funpack(b); int n = 2 * mb + 2; BV p = Bmul(Bz(x.m, n), Bz(y.m, n)); L s = Lxor(x.s, y.s);
    BV e = Badd(Badd(x.e, y.e, 0), Bc(1, FE), 0); L nan = Lor(Lor(x.nan, y.nan), Lor(Land(x.inf, y.zero), Land(x.zero, y.inf))), inf = Lor(x.inf, y.inf), zero = Lor(x.zero, y.zero);
    return Fpackspecial(w, s, Fround(w, s, e, p, 0), nan, inf, zero, s);
}
static BV Fdiv(const BV &a, const BV &b) {
    int w = (int)a.size(), mb = w == 32 ? 23 : 52; FU x = Funpack(a), y = Funpack(b); Fnorm(x.m, x.e); Fnorm(y.m, y.e); int n = 2 * mb + 4; BV num(mb + 3, 0), q, r; num.insert(num.end(), x.m.begin(), x.m.end()); Bdivrem(num, Bz(y.m, n), q, r);
    L s = Lxor(x.s, y.s); BV e = Badd(Bsub(x.e, y.e), Bc(1, FE), 0); L nan = Lor(Lor(x.nan, y.nan), Lor(Land(x.inf, y.inf), Land(x.zero, y.zero))), inf = Lor(x.inf, y.zero), zero = Lor(x.zero, y.inf);
    return Fpackspecial(w, s, Fround(w, s, e, Bslice(q, 0, mb + 5), Bany(r)), nan, inf, zero, s);
}
static BV Fcvt(const BV &a, int w) { FU x = Funpack(a); BV r = Fround(w, x.s, x.e, x.m, 0); return Fpackspecial(w, x.s, r, x.nan, x.inf, x.zero, x.s); }
static BV Ffromint(const BV &a, bool sg, int w) { int n = (int)a.size(); L s = sg ? a[n - 1] : 0; BV m = Bmux(s, Bneg(a), a); BV r = Fround(w, s, Bc(n - 1, FE), m, 0); return Fpackspecial(w, s, r, 0, 0, Bany(a) ^ 1, 0); }
// truncation; M = |x| as 64 bits, ge64: |x| >= 2^64 or not finite
static BV Ftrunc64(const FU &x, int mb, L &ge64) {
    L neg = x.e[FE - 1], hi = 0; for (int i = 6; i < FE - 1; i++) hi = Lor(hi, x.e[i]); ge64 = Lor(Lor(x.nan, x.inf), Land(neg ^ 1, hi)); BV X = Bz(x.m, 64 + mb); for (int k = 0; k < 6; k++) X = Bmux(x.e[k], Bsh1(X, 1 << k, true), X);
    return Bmux(neg, Bc(0, 64), Bslice(X, mb, 64));
}
static BV Ftoint(const BV &a, bool sg, int w) {
    FU x = Funpack(a); L ge; BV M = Ftrunc64(x, a.size() == 32 ? 23 : 52, ge), T = Bmux(x.s, Bneg(M), M); auto le = [&](const BV &p, u64 v) { return Bult(p, Bc(v, 64), 1); };
    if (sg && w == 64) { L ok = Land(ge ^ 1, Lmux(x.s, le(M, 1ull << 63), M[63] ^ 1)); return Bmux(ok, T, Bc(1ull << 63, 64)); }
    if (sg) { L ok = Land(ge ^ 1, Lmux(x.s, le(M, 1ull << 31), le(M, (1ull << 31) - 1))); return Bmux(ok, Bslice(T, 0, w), Bc(w == 32 ? 1ull << 31 : 0, w)); }
    if (w == 64) { L posbig = Land(Land(x.nan ^ 1, x.s ^ 1), ge), bad = Lor(x.nan, Land(x.s, Lor(ge, le(M, 1ull << 63) ^ 1))); return Bmux(bad, Bc(1ull << 63, 64), Bmux(posbig, Bc(0, 64), T)); }
    L ok = Land(ge ^ 1, le(M, (1ull << 63) - 1)); return Bmux(ok, Bslice(T, 0, w), Bc(0, w));
}
static L Fcmp(K k, const BV &a, const BV &b) {
    FU x = Funpack(a), y = Funpack(b); L un = Lor(x.nan, y.nan); if (k == KFUNO) return un; L bz = Land(x.zero, y.zero), eq = Lor(bz, Beq(a, b)); if (k == KFEQ) return Land(un ^ 1, eq);
    L lt = Lmux(x.s, Lmux(y.s, Bult(y.mag, x.mag, 0), 1), Lmux(y.s, 0, Bult(x.mag, y.mag, 0))); lt = Land(lt, bz ^ 1); return Land(un ^ 1, k == KFLT ? lt : Lor(lt, eq));
}
static bool bbfp_ok(Expr *e, std::unordered_set<Expr *> &seen) { if (!e || !e->fp || !seen.insert(e).second) return true; if (e->k == KFREM || e->k == KFSQRT || e->k == KFROUND || e->k == KFUN) return false; return bbfp_ok(e->a, seen) && bbfp_ok(e->b, seen) && bbfp_ok(e->d, seen); }
static u64 Bval(const BV &b) { u64 v = 0; for (size_t i = 0; i < b.size(); i++) { if (b[i] > 1) { fprintf(stderr, "vpx: constant did not fold\n"); abort(); } v |= (u64)b[i] << i; } return v; }
// self test on random patterns against the processor
static int bbfp_test() {
    u64 x = 88172645463325252ull; auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }; int bad = 0; long n = 0;
    for (int it = 0; it < 300000 && bad < 10; it++) { int w = it & 1 ? 32 : 64, mb = w == 32 ? 23 : 52, eb = w - 1 - mb; auto gen = [&] { u64 v = rnd() & mask(w); int k = rnd() % 8; if (k == 0) v &= ~mask(mb); if (k == 1) v &= ~(mask(eb) << mb); if (k == 2) v |= mask(eb) << mb; if (k == 3) v = (v & ~(mask(eb) << mb)) | ((u64)((1 << (eb - 1)) - 3 + rnd() % 60) << mb); if (k == 4) v &= ~mask(mb - 4); return v; };
        u64 a = gen(), b = rnd() % 6 ? gen() : a ^ (rnd() & 7) ^ (rnd() % 2 ? 1ull << (w - 1) : 0); BV A = Bc(a, w), B = Bc(b, w); auto nanok = [&](u64 p, u64 q, int w) { return p == q || (fold(KFUNO, 1, w, p, p, 0) && fold(KFUNO, 1, w, q, q, 0)); };
        auto t = [&](const char *nm, K k, int rw, const BV &r, u64 q, bool f) { n++; u64 g = Bval(r), e = fold(k, rw, w, a, q, 0); if (f ? !nanok(g, e, rw) : g != e) { bad++; fprintf(stderr, "bbfp %s w=%d a=%llx b=%llx got %llx want %llx\n", nm, w, (unsigned long long)a, (unsigned long long)b, (unsigned long long)g, (unsigned long long)e); } };
        t("add", KFADD, w, Fadd(A, B, false), b, 1); t("sub", KFSUB, w, Fadd(A, B, true), b, 1); t("mul", KFMUL, w, Fmul(A, B), b, 1); t("div", KFDIV, w, Fdiv(A, B), b, 1);
        for (K k : {KFEQ, KFLT, KFLE, KFUNO}) t("cmp", k, 1, BV(1, Fcmp(k, A, B)), b, 0);
        if (w == 32) t("ext", KFEXT, 64, Fcvt(A, 64), 0, 1); else t("trunc", KFTRUNC, 32, Fcvt(A, 32), 0, 1);
        for (int iw : {8, 16, 32, 64}) { t("f2s", KF2S, iw, Ftoint(A, true, iw), 0, 0); t("f2u", KF2U, iw, Ftoint(A, false, iw), 0, 0); }
        { int k = rnd() % 64; a = rnd() >> k; if (w == 32) a &= mask(32); BV I = Bc(a, w); t("s2f", KS2F, 32, Ffromint(I, true, 32), 0, 1); t("s2d", KS2F, 64, Ffromint(I, true, 64), 0, 1); t("u2f", KU2F, 32, Ffromint(I, false, 32), 0, 1); t("u2d", KU2F, 64, Ffromint(I, false, 64), 0, 1); } }
    fprintf(stderr, "bbfp: %ld comparisons, %d wrong\n", n, bad); return bad;
}
