// P18: sorting, searching, reversing, shuffling
#include "vp.h"
typedef struct { unsigned char k; unsigned char tag; unsigned short pad; } el;
static int calls;
static unsigned char *lo_, *hi_;   /* the comparator only ever sees elements of the array */
static int cmp(void const *a, void const *b) { CHECK((unsigned char *)a >= lo_ && (unsigned char *)a < hi_ && (unsigned char *)b >= lo_ && (unsigned char *)b < hi_, "compared elements lie inside the array"); unsigned char x = ((el *)a)->k, y = ((el *)b)->k; return x < y ? -1 : x > y; }
static void sorted(el *a, el *o, int n) {
    for (int i = 0; i + 1 < n; i++) CHECK(a[i].k <= a[i + 1].k, "ordered");
    unsigned seen = 0; for (int i = 0; i < n; i++) { int t = a[i].tag; CHECK(t < n && !(seen >> t & 1), "each element appears once"); seen |= 1u << t; CHECK(a[i].k == o[t].k && a[i].pad == o[t].pad, "elements move as a whole"); }
}
//@ x=h_small q="N=5,T=60" t="N=7,T=900,J=8;N=6,T=300" what="every array of up to N elements with arbitrary keys: ordered permutation, comparator and memory inside the array"
#ifndef N
#define N 5
#endif
void h_small(void) {
    int n = nd_pick(0, N); el *a = (el *)malloc(n * sizeof(el)), o[N + 1]; for (int i = 0; i < n; i++) { a[i].k = nd_u8(); a[i].tag = (unsigned char)i; a[i].pad = (unsigned short)(i * 7 + 1); o[i] = a[i]; } lo_ = (unsigned char *)a; hi_ = lo_ + n * sizeof(el);
    zpl_sort(a, n, sizeof(el), cmp); sorted(a, o, n); free(a); REACHED();
}
//@ x=h_part q="M=9,W=2,T=60" t="M=10,W=2,T=900,J=8;M=9,W=3,T=900,J=8;M=9,W=2,T=200" what="partitioning sizes: every array of 9 (10) elements with keys from a domain of W+... values, and 10..14 elements with two-valued keys"
#ifndef M
#define M 9
#endif
#ifndef W
#define W 2
#endif
void h_part(void) {
    int n = M; el *a = (el *)malloc(n * sizeof(el)), o[M]; for (int i = 0; i < n; i++) { a[i].k = nd_u8(); ASSUME(a[i].k < W + 1); a[i].tag = (unsigned char)i; a[i].pad = (unsigned short)(i + 3); o[i] = a[i]; } lo_ = (unsigned char *)a; hi_ = lo_ + n * sizeof(el);
    zpl_sort(a, n, sizeof(el), cmp); sorted(a, o, n); free(a); REACHED();
}
//@ x=h_big q="NB=20,T=60" t="NB=31,V=4,T=900,J=8;NB=31,T=300" what="larger arrays in sorted, reversed, organ-pipe, constant and pseudo-random base order with V arbitrary keys at arbitrary places"
#ifndef NB
#define NB 20
#endif
#ifndef V
#define V 2
#endif
void h_big(void) {
    int n = nd_pick(9, NB), pat = nd_pick(0, 4); ASSUME(n <= 12 || n == NB); el *a = (el *)malloc(n * sizeof(el)), o[NB]; unsigned r = 12345;
    for (int i = 0; i < n; i++) { r = r * 1103515245u + 12345; a[i].k = (unsigned char)(8 * (pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i < n / 2 ? i : n - i) : pat == 3 ? 5 : (r >> 16) % (unsigned)n)); a[i].tag = (unsigned char)i; a[i].pad = (unsigned short)(i ^ 5); }
    for (int v = 0; v < V; v++) { int p = v == 0 ? nd_pick(0, n - 1) : v == 1 ? n / 2 : v == 2 ? 1 : n - 1; a[p].k = nd_u8(); }
    for (int i = 0; i < n; i++) o[i] = a[i]; lo_ = (unsigned char *)a; hi_ = lo_ + n * sizeof(el);
    zpl_sort(a, n, sizeof(el), cmp); sorted(a, o, n); free(a); REACHED();
}
//@ x=h_depth q="ND=96,VD=4,T=60" t="ND=300,VD=8,T=600,J=8" what="adversarial orders: the comparator itself fixes the keys so that partitions are as unbalanced as possible, with arbitrary choices mixed in; bookkeeping stays in bounds and the result is ordered"
#ifndef ND
#define ND 96
#endif
#ifndef VD
#define VD 4
#endif
static int vk_[ND], solid_, cand_, left_;
static int advcmp(void const *a, void const *b) {
    int x = *(int *)a, y = *(int *)b;
    if (vk_[x] == ND && vk_[y] == ND) { int first = x == cand_; if (left_ > 0 && solid_ % 7 == 3) { left_--; first = nd_pick(0, 1); } vk_[first ? x : y] = solid_++; }
    if (vk_[x] == ND) cand_ = x; else if (vk_[y] == ND) cand_ = y;
    return vk_[x] < vk_[y] ? -1 : vk_[x] > vk_[y];
}
void h_depth(void) {
    int *a = (int *)malloc(ND * 4); solid_ = 0; cand_ = 0; left_ = VD; for (int i = 0; i < ND; i++) { a[i] = i; vk_[i] = ND; }
    zpl_sort(a, ND, 4, advcmp); for (int i = 0; i + 1 < ND; i++) CHECK(vk_[a[i]] <= vk_[a[i + 1]], "ordered"); unsigned char seen[ND]; memset(seen, 0, ND); for (int i = 0; i < ND; i++) { CHECK(a[i] >= 0 && a[i] < ND && !seen[a[i]], "permutation"); seen[a[i]] = 1; } free(a); REACHED();
}
//@ x=h_search q="NS=6,T=60" t="NS=10,T=300" what="binary search over every sorted array of arbitrary keys: a matching index exactly when one exists"
#ifndef NS
#define NS 6
#endif
static int cmpi(void const *a, void const *b) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
void h_search(void) {
    int n = nd_pick(0, NS); int *a = (int *)malloc(n * 4), key = nd_i32(), has = 0; for (int i = 0; i < n; i++) { a[i] = nd_i32(); if (i) ASSUME(a[i - 1] <= a[i]); }
    zpl_isize r = zpl_binary_search_array(a, n, &key, cmpi); CHECK(r >= -1 && r < n, "index range"); if (r >= 0) CHECK(a[r] == key, "matching element"); else for (int i = 0; i < n; i++) CHECK(a[i] != key, "reported missing only when missing"); (void)has; free(a); REACHED();
}
//@ x=h_radix q="NR=3,T=60" t="NR=4,T=600,J=8" what="radix sort of 8 and 16-bit keys: ordered permutation"
#ifndef NR
#define NR 3
#endif
void h_radix(void) {
    int n = nd_pick(0, NR);
    if (nd_pick(0, 1)) { unsigned char *a = (unsigned char *)malloc(n), *t = (unsigned char *)malloc(n), o[NR]; for (int i = 0; i < n; i++) { a[i] = nd_u8(); ASSUME(a[i] % 37 < 2 || a[i] > 250); o[i] = a[i]; } zpl_radix_sort(u8)(a, t, n); for (int i = 0; i + 1 < n; i++) CHECK(t[i] <= t[i + 1], "ordered"); unsigned used = 0; for (int i = 0; i < n; i++) { int j = 0; while (j < n && ((used >> j & 1) || o[j] != t[i])) j++; CHECK(j < n, "permutation"); used |= 1u << j; } free(a); free(t); }
    else { unsigned short *a = (unsigned short *)malloc(2 * n), *t = (unsigned short *)malloc(2 * n), o[NR]; for (int i = 0; i < n; i++) { unsigned h = (unsigned)nd_pick(0, 4), l = (unsigned)nd_pick(0, 2); a[i] = (unsigned short)(h * 0x3f00 + l * 0x7f); o[i] = a[i]; } zpl_radix_sort(u16)(a, t, n); for (int i = 0; i + 1 < n; i++) CHECK(a[i] <= a[i + 1], "ordered"); unsigned used = 0; for (int i = 0; i < n; i++) { int j = 0; while (j < n && ((used >> j & 1) || o[j] != a[i])) j++; CHECK(j < n, "permutation"); used |= 1u << j; } free(a); free(t); }
    REACHED();
}
//@ x=h_radix_wide q="T=60" what="radix sort of 32 and 64-bit keys that differ in any one byte"
void h_radix_wide(void) {
    int b = nd_pick(0, 7); unsigned long long a[3], t[3]; unsigned x[3], y[3]; unsigned char v[3]; for (int i = 0; i < 3; i++) { v[i] = (unsigned char)(nd_pick(0, 2) * 0x7f + 1); a[i] = 0x0102030405060708ull ^ ((unsigned long long)v[i] << (8 * b)); x[i] = 0x01020304u ^ ((unsigned)v[i] << (8 * (b & 3))); }
    unsigned long long s = a[0] ^ a[1] ^ a[2]; unsigned q = x[0] ^ x[1] ^ x[2]; zpl_radix_sort(u64)(a, t, 3); zpl_radix_sort(u32)(x, y, 3);
    CHECK(a[0] <= a[1] && a[1] <= a[2] && (a[0] ^ a[1] ^ a[2]) == s, "64-bit keys ordered"); CHECK(x[0] <= x[1] && x[1] <= x[2] && (x[0] ^ x[1] ^ x[2]) == q, "32-bit keys ordered"); REACHED();
}
//@ x=h_reverse q="T=60" what="reverse: mirrored contents for every size and element size"
void h_reverse(void) {
    int n = nd_pick(0, 7), sz = nd_pick(1, 9); unsigned char *a = vp_bytes(n * sz), o[64]; for (int i = 0; i < n * sz; i++) o[i] = a[i]; zpl_reverse(a, n, sz); for (int i = 0; i < n; i++) for (int k = 0; k < sz; k++) CHECK(a[i * sz + k] == o[(n - 1 - i) * sz + k], "reversed"); free(a); REACHED();
}
zpl_isize vp_gen(zpl_random *r) { (void)r; return (zpl_isize)nd_u64(); }
void vp_rinit(zpl_random *r) { memset(r, 0, sizeof *r); }
//@ x=h_shuffle q="NSH=4,T=60" t="NSH=5,T=300" repl="zpl_random_gen_isize:vp_gen,zpl_random_init:vp_rinit" what="shuffle under every random outcome: a permutation, no access outside, and every arrangement is reachable"
#ifndef NSH
#define NSH 4
#endif
void h_shuffle(void) {
    int n = nd_pick(0, NSH); unsigned *a = (unsigned *)malloc(n * 4); for (int i = 0; i < n; i++) a[i] = 100u + i; zpl_shuffle(a, n, 4); unsigned seen = 0; for (int i = 0; i < n; i++) { unsigned t = a[i] - 100; CHECK(t < (unsigned)n && !(seen >> t & 1), "permutation"); seen |= 1u << t; } free(a); REACHED();
}
//@ x=h_cmp q="T=60" what="ready-made comparators order by value at the given offset"
void h_cmp(void) {
    struct { char pre; zpl_u8 a; zpl_i16 b; zpl_i32 c; zpl_i64 d; zpl_isize e; } x, y; x.a = nd_u8(); y.a = nd_u8(); x.b = (zpl_i16)nd_u16(); y.b = (zpl_i16)nd_u16(); x.c = nd_i32(); y.c = nd_i32(); x.d = nd_i64(); y.d = nd_i64(); x.e = nd_i64(); y.e = nd_i64();
#define T3(f, g) { int r = g(zpl_offset_of(__typeof__(x), f))(&x, &y); CHECK(r == (x.f < y.f ? -1 : x.f > y.f), "comparator sign"); }
    T3(a, zpl_u8_cmp) T3(b, zpl_i16_cmp) T3(c, zpl_i32_cmp) T3(d, zpl_i64_cmp) T3(e, zpl_isize_cmp)
    char *s = vp_str(2), *t = vp_str(2); CHECK(rsgn(zpl_str_cmp(0)(&s, &t)) == rcmp(s, t, 4), "string comparator");
    struct { int pre; float f; char *s; double d; } u = { 1, 0, s, 0 }, v = { 2, 0, t, 0 }; static double const FV[] = { 0, 1, -1, 0.5, 1e30, -1e-30 }; int i = nd_pick(0, 5), j = nd_pick(0, 5); u.f = (float)FV[i]; v.f = (float)FV[j]; u.d = FV[i]; v.d = FV[j]; CHECK(rsgn(zpl_str_cmp(zpl_offset_of(__typeof__(u), s))(&u, &v)) == rcmp(s, t, 4), "string comparator at an offset");
    int w = FV[i] < FV[j] ? -1 : FV[i] > FV[j]; CHECK(zpl_f32_cmp(zpl_offset_of(__typeof__(u), f))(&u, &v) == w && zpl_f64_cmp(zpl_offset_of(__typeof__(u), d))(&u, &v) == w, "floating comparators at an offset"); free(s); free(t); REACHED();
}
//@ x=h_large q="T=60" what="hundreds of elements with an arbitrary key among them: sorting, searching, radix sorting and reversing"
static int cmp16(void const *x, void const *y) { unsigned a = *(unsigned short const *)x, b = *(unsigned short const *)y; return a < b ? -1 : a > b; }
void h_large(void) {
    enum { NL = 300 }; unsigned short *a = (unsigned short *)malloc(2 * NL), *t = (unsigned short *)malloc(2 * NL); int pat = nd_pick(0, 3), p = nd_pick(0, 3) * 99; unsigned r = 99, sum = 0; unsigned long long sq = 0; for (int i = 0; i < NL; i++) { r = r * 1103515245u + 12345; a[i] = (unsigned short)(pat == 0 ? 3 * i : pat == 1 ? 3 * (NL - i) : pat == 2 ? (i * 7) % 5 * 9 : (r >> 16) & 0x7fff); } int how = nd_pick(0, 2); if (how < 2) a[p] = (unsigned short)(nd_pick(0, 5) * 13007); for (int i = 0; i < NL; i++) { sum += a[i]; sq += (unsigned long long)a[i] * a[i]; }
    if (how == 2) { for (int i = 0; i < NL; i++) t[i] = a[i]; zpl_reverse(a, NL, 2); for (int i = 0; i < NL; i++) CHECK(a[i] == t[NL - 1 - i], "reversed"); } else { if (how) zpl_sort(a, NL, 2, cmp16); else zpl_radix_sort(u16)(a, t, NL); unsigned s2 = 0; unsigned long long q2 = 0; for (int i = 0; i < NL; i++) { if (i) CHECK(a[i - 1] <= a[i], "ordered"); s2 += a[i]; q2 += (unsigned long long)a[i] * a[i]; } CHECK(s2 == sum && q2 == sq, "the same elements"); zpl_isize f = zpl_binary_search(a, NL, 2, a + p, cmp16); CHECK(f >= 0 && f < NL && a[f] == a[p], "found"); unsigned short no = 0xFFFF; CHECK(zpl_binary_search(a, NL, 2, &no, cmp16) < 0, "not found"); } free(a); free(t); REACHED();
}
