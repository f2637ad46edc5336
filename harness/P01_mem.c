// P01: byte-range primitives agree with their reference meaning
//@ file -DVP_BYTEMEM
#include "vp.h"
#define AL __attribute__((aligned(16)))

#ifndef N
#define N 8
#endif
#ifndef M
#define M 8
#endif
//@ h=h_memmove_fwd q="N=9,M=9,U=19,T=200" t="N=20,M=9,U=30,T=2500;N=12,M=9,U=22,T=900" what="move, dest not above source: every overlap/alignment/length"
//@ h=h_memmove_bwd q="N=9,M=9,U=19,T=200" t="N=20,M=9,U=30,T=2500;N=12,M=9,U=22,T=900" what="move, dest above source"
static void memmove_body(int up) {
    AL unsigned char b[M+N], r[M+N]; nd_bytes(b, M+N); for (int i = 0; i < M+N; i++) r[i] = b[i];
    int n = nd_in(0, N), s = nd_in(0, M-1), d = nd_in(0, M-1);
    ASSUME(up ? d > s : d <= s);
    void *ret = zpl_memmove(b + d, b + s, n);
    CHECK(ret == b + d, "memmove returns dest");
    int k = nd_in(0, M+N-1);
    unsigned char e = (k >= d && k < d + n) ? r[s + k - d] : r[k];
    CHECK(b[k] == e, "memmove result");
    REACHED();
}
void h_memmove_fwd(void) { memmove_body(0); }
void h_memmove_bwd(void) { memmove_body(1); }

//@ h=h_memset q="N=40,M=8,U=52,T=200;N=24,M=4,U=40,T=120" t="N=140,M=9,U=170,T=1500;N=70,M=8,U=90,T=900" what="set/zero: every length/alignment, nothing outside touched"
void h_memset(void) {
    unsigned char c = nd_u8(), bg = nd_u8(); int n = nd_in(0, N), o = nd_in(0, M-1);
    AL unsigned char b[M+N+1]; for (int i = 0; i < M+N+1; i++) b[i] = bg;
    void *ret = zpl_memset(b + o, c, n);
    CHECK(ret == b + o, "memset returns dest");
    int k = nd_in(0, M+N);
    CHECK(b[k] == ((k >= o && k < o + n) ? c : bg), "memset result");
    REACHED();
}
//@ h=h_zero q="N=40,M=8,U=52,T=200;N=24,M=4,U=40,T=120" what="zero_size"
void h_zero(void) {
    unsigned char bg = nd_u8(); int n = nd_in(0, N), o = nd_in(0, M-1);
    AL unsigned char b[M+N+1]; for (int i = 0; i < M+N+1; i++) b[i] = bg;
    zpl_zero_size(b + o, n);
    int k = nd_in(0, M+N);
    CHECK(b[k] == ((k >= o && k < o + n) ? 0 : bg), "zero_size result");
    REACHED();
}

//@ h=h_find q="N=16,U=19,T=200;N=10,U=30,T=120" t="N=40,U=60,T=900;N=18,U=40,T=200" what="find first/last byte"
void h_find(void) {
    AL unsigned char b[N]; nd_bytes(b, N); unsigned char c = nd_u8(); int n = nd_in(0, N);
    unsigned char *p = b + N - n;   /* reading past the range leaves the object */
    unsigned char const *f = zpl_memchr(p, c, n), *l = zpl_memrchr(p, c, n);
    int ef = -1, el = -1;
    for (int i = 0; i < N; i++) if (i < n && b[N - n + i] == c) { if (ef < 0) ef = i; el = i; }
    CHECK(f == (ef < 0 ? NULL : p + ef), "memchr finds the first occurrence");
    CHECK(l == (el < 0 ? NULL : p + el), "memrchr finds the last occurrence");
    REACHED();
}

//@ h=h_compare q="N=10,U=16,T=100" t="N=24,U=30,T=600" what="compare/copy"
void h_compare(void) {
    unsigned char a[N], b[N], c[N+2]; nd_bytes(a, N); nd_bytes(b, N); int n = nd_in(0, N);
    int e = 0; for (int i = 0; i < N; i++) if (i < n && !e) e = (int)a[i] - (int)b[i];
    int r = zpl_memcompare(a, b, n);
    CHECK((r < 0) == (e < 0) && (r > 0) == (e > 0), "memcompare sign");
    CHECK(zpl_memcompare(a, NULL, n) == 0, "memcompare NULL");
    unsigned char g = nd_u8(); for (int i = 0; i < N+2; i++) c[i] = g;
    CHECK(zpl_memcopy(c + 1, a, n) == c + 1, "memcopy returns dest");
    for (int i = 0; i < N+2; i++) CHECK(c[i] == ((i >= 1 && i < 1 + n) ? a[i-1] : g), "memcopy result");
    CHECK(zpl_memcopy(NULL, a, 0) == NULL && zpl_memmove(NULL, a, 0) == NULL && zpl_memset(NULL, 0, 0) == NULL, "NULL dest");
    REACHED();
}

//@ h=h_swap q="N=17,U=19,T=150;N=12,U=14,T=100" t="N=40,U=44,T=900" what="swap two blocks"
void h_swap(void) {
    AL unsigned char a[N+1], b[N+1]; unsigned char x[N+1], y[N+1]; nd_bytes(x, N+1); nd_bytes(y, N+1); int n = nd_in(1, N);
    for (int i = 0; i <= N; i++) { a[i] = x[i]; b[i] = y[i]; }
    zpl_memswap(a, b, n);
    for (int i = 0; i <= N; i++) CHECK(a[i] == (i < n ? y[i] : x[i]) && b[i] == (i < n ? x[i] : y[i]), "memswap result");
    zpl_memswap(a, a, n);
    for (int i = 0; i <= N; i++) CHECK(a[i] == (i < n ? y[i] : x[i]), "self swap is the identity");
    REACHED();
}
//@ h=h_swap_big q="N=258,U=600,T=150" t="N=520,U=1100,T=900" what="swap blocks larger than the internal chunk"
void h_swap_big(void) {
    AL static unsigned char a[N+2], b[N+2]; unsigned char x[N+2], y[N+2];
    nd_bytes(x, N+2); nd_bytes(y, N+2);
    for (int i = 0; i < N+2; i++) { a[i] = x[i]; b[i] = y[i]; }
    zpl_memswap(a, b, N - 1);
    for (int i = 0; i < N+2; i++) CHECK(a[i] == (i < N-1 ? y[i] : x[i]) && b[i] == (i < N-1 ? x[i] : y[i]), "memswap large");
    zpl_memswap(a, b, N - 1); zpl_memswap(a, b, 256);
    for (int i = 0; i < N+2; i++) CHECK(a[i] == (i < 256 ? y[i] : x[i]) && b[i] == (i < 256 ? x[i] : y[i]), "memswap at the chunk size");
    REACHED();
}
//@ h=h_align q="U=66,T=120" what="align-forward arithmetic over all 64-bit values"
void h_align(void) {
    unsigned sh = nd_in(0, 12); unsigned long long al = 1ull << sh;
    unsigned long long p = nd_u64(); ASSUME(p < (1ull << 62));
    unsigned long long q = (unsigned long long)(zpl_uintptr)zpl_align_forward((void *)(zpl_uintptr)p, (zpl_isize)al);
    CHECK(q >= p && q - p < al && (q & (al - 1)) == 0, "align_forward: smallest multiple not below");
    CHECK(zpl_align_forward_u64(p, al) == q, "align_forward_u64"); CHECK((unsigned long long)zpl_align_forward_i64((long long)p, (long long)al) == q, "align_forward_i64");
    long long x = nd_i64(); int bits = 0; for (int i = 0; i < 64; i++) bits += (int)(((unsigned long long)x >> i) & 1);
    CHECK(!!zpl_is_power_of_two(x) == (x > 0 && bits == 1), "is_power_of_two");
    REACHED();
}
//@ x=h_blocks q="T=60,STEPS=40000000" what="the same operations on blocks of hundreds to thousands of bytes around every chunk and word boundary, unaligned, with symbolic bytes at the ends and in the middle"
void h_blocks(void) {
    static int const NS[] = { 33, 63, 64, 65, 127, 129, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 2049, 4097 }; int n = NS[nd_pick(0, 19)], o = nd_pick(0, 7), q = nd_pick(0, 3), k = nd_pick(0, 5);
    unsigned char *a = malloc(n + o + 9), *b = malloc(n + q + 9), *r = malloc(n), *w = malloc(n); unsigned char x[3], y[3]; nd_bytes(x, 3); nd_bytes(y, 3);
    for (int i = 0; i < n; i++) { r[i] = (unsigned char)(i * 7 + 3 + i / 256); w[i] = (unsigned char)(i * 5 + 1 + i / 251); } r[0] = x[0]; r[n / 2] = x[1]; r[n - 1] = x[2]; w[0] = y[0]; w[n / 2] = y[1]; w[n - 1] = y[2];
    for (int i = 0; i < n + o + 9; i++) a[i] = i >= o && i < o + n ? r[i - o] : 0x5a; for (int i = 0; i < n + q + 9; i++) b[i] = i >= q && i < q + n ? w[i - q] : 0xa5;
    if (k == 0) { zpl_memswap(a + o, b + q, n); for (int i = 0; i < n; i++) CHECK(a[o + i] == w[i] && b[q + i] == r[i], "swapped"); }
    if (k == 1) { CHECK(zpl_memcopy(b + q, a + o, n) == b + q, "returns the destination"); for (int i = 0; i < n; i++) CHECK(b[q + i] == r[i] && a[o + i] == r[i], "copied"); }
    if (k == 2) { CHECK(zpl_memset(b + q, y[1], n) == b + q, "returns the destination"); for (int i = 0; i < n; i++) CHECK(b[q + i] == y[1], "set"); }
    if (k == 3) { for (int i = 0; i < n; i++) b[q + i] = r[i]; b[q + n / 2] = y[1]; int c = zpl_memcompare(a + o, b + q, n); CHECK((c < 0) == (x[1] < y[1]) && (c > 0) == (x[1] > y[1]), "compared up to the byte that differs"); }
    if (k == 4) { for (int i = 0; i < n; i++) a[o + i] = 7; int at = nd_pick(0, 4); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : at == 3 ? n - 9 : 17; a[o + at] = x[0]; ASSUME(x[1] != 7); CHECK(zpl_memchr(a + o, x[1], n) == (x[0] == x[1] ? a + o + at : 0) && zpl_memrchr(a + o, x[1], n) == (x[0] == x[1] ? a + o + at : 0), "found where it is"); }
    if (k == 5) { int d = nd_pick(0, 8); zpl_memmove(a + d, a + o, n); for (int i = 0; i < n; i++) CHECK(a[d + i] == r[i], "moved"); for (int i = 0; i < o + n + 9; i++) if (i < d || i >= d + n) CHECK(a[i] == (i >= o && i < o + n ? r[i - o] : 0x5a), "the rest is as it was"); }
    if (k != 5) { for (int i = 0; i < n + o + 9; i++) if (i < o || i >= o + n) CHECK(a[i] == 0x5a, "nothing outside is touched"); for (int i = 0; i < n + q + 9; i++) if (i < q || i >= q + n) CHECK(b[i] == 0xa5, "nothing outside is touched"); }
    free(a); free(b); free(r); free(w); REACHED();
}
