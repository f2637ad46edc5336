// P16: UTF-8 <-> UTF-16 (UCS-2) conversion
#include "vp.h"
#ifndef N
#define N 4
#endif
static int ref_len(unsigned char const *p) {   /* NUL-terminated text */
    unsigned a = p[0]; if (a < 0x80) return 1; if (a < 0xC2 || a > 0xF4) return 0; int k = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; unsigned lo = a == 0xE0 ? 0xA0 : a == 0xF0 ? 0x90 : 0x80, hi = a == 0xED ? 0x9F : a == 0xF4 ? 0x8F : 0xBF;
    if (p[1] < lo || p[1] > hi) return 0; for (int i = 2; i < k; i++) if (p[i] < 0x80 || p[i] > 0xBF) return 0; return k;
}
static unsigned ref_cp(unsigned char const *p, int k) { if (k == 1) return p[0]; unsigned c = p[0] & (0xFFu >> (k + 1)); for (int i = 1; i < k; i++) c = c << 6 | (p[i] & 63); return c; }
//@ x=h_to16 q="N=4,T=60" t="N=6,T=600,J=8;N=5,T=200" what="every byte string and output size: the UTF-16 text or refusal exactly when malformed or too long; no access outside"
void h_to16(void) {
    unsigned char *s = (unsigned char *)vp_str(N); int l = rlen((char *)s); int cap = nd_pick(1, N + 1); unsigned short *o = (unsigned short *)malloc(2 * cap), w[N + 2]; int n = 0, ok = 1;
    for (int i = 0; i < l && ok; ) { int k = ref_len(s + i); if (!k) { ok = 0; break; } unsigned c = ref_cp(s + i, k); if (c < 0x10000) w[n++] = (unsigned short)c; else { c -= 0x10000; w[n++] = (unsigned short)(0xD800 + (c >> 10)); w[n++] = (unsigned short)(0xDC00 + (c & 0x3FF)); } i += k; if (n >= N + 1) break; }
    if (n + 1 > cap) ok = 0; zpl_u16 *r = zpl_utf8_to_ucs2(o, cap, s);
    CHECK((r != NULL) == ok, "converted exactly when well-formed and fitting"); if (ok) { CHECK(r == o, "returns the buffer"); for (int i = 0; i < n; i++) CHECK(o[i] == w[i], "code units"); CHECK(o[n] == 0, "terminated");
        unsigned char *b = (unsigned char *)malloc(l + 1); CHECK(zpl_ucs2_to_utf8(b, l + 1, o) == b, "back conversion fits"); for (int i = 0; i <= l; i++) CHECK(b[i] == s[i], "round trip"); free(b); }
    free(o); free(s); REACHED();
}
#ifndef M
#define M 3
#endif
//@ x=h_to8 q="M=3,T=60" t="M=4,T=600,J=8" what="every 16-bit string and output size: the UTF-8 text, refusal of unpaired surrogates and of short buffers; no access outside"
void h_to8(void) {
    int l = nd_pick(0, M); unsigned short *s = (unsigned short *)malloc(2 * (l + 1)); for (int i = 0; i < l; i++) { s[i] = nd_u16(); ASSUME(s[i]); } s[l] = 0;
    int cap = nd_pick(1, 3 * M + 1), n = 0, ok = 1; unsigned char *o = (unsigned char *)malloc(cap);
    for (int i = 0; i < l && ok; i++) { unsigned c = s[i]; if (c >= 0xD800 && c < 0xDC00) { if (s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { i++; n += 4; } else ok = 0; } else if (c >= 0xDC00 && c < 0xE000) ok = 0; else n += c < 0x80 ? 1 : c < 0x800 ? 2 : 3; }
    if (n + 1 > cap) ok = 0; zpl_u8 *r = zpl_ucs2_to_utf8(o, cap, s); CHECK((r != NULL) == ok, "converted exactly when paired and fitting");
    if (ok) { CHECK(r == o && o[n] == 0, "returns the terminated buffer"); unsigned short *b = (unsigned short *)malloc(2 * (l + 1)); CHECK(zpl_utf8_to_ucs2(b, l + 1, o) == b, "back conversion fits"); for (int i = 0; i <= l; i++) CHECK(b[i] == s[i], "round trip"); free(b); }
    free(o); free(s); REACHED();
}
//@ x=h_buf q="T=30" what="the static-buffer variants agree with the explicit ones"
void h_buf(void) { unsigned char *s = (unsigned char *)vp_str(3); unsigned short o[8]; zpl_u16 *a = zpl_utf8_to_ucs2(o, 8, s), *b = zpl_utf8_to_ucs2_buf(s); CHECK((a != NULL) == (b != NULL), "same verdict"); if (a) { for (int i = 0; ; i++) { CHECK(a[i] == b[i], "same text"); if (!a[i]) break; } zpl_u8 *u = zpl_ucs2_to_utf8_buf(b); CHECK(u != NULL, "back"); for (int i = 0; i <= rlen((char *)s); i++) CHECK(u[i] == s[i], "round trip"); } free(s); REACHED(); }
//@ x=h_large q="T=60" what="texts of thousands of code units, up to and beyond the size of the static buffers"
void h_large(void) {
    static int const L[4] = { 257, 4095, 4096, 5000 }; int n = L[nd_pick(0, 3)]; unsigned char *s = (unsigned char *)malloc(n + 1), *b = (unsigned char *)malloc(n + 1); unsigned short *o = (unsigned short *)malloc(2 * (n + 1)); for (int i = 0; i < n; i++) s[i] = (unsigned char)('a' + i % 26); unsigned char c = nd_u8(); ASSUME(c && c < 0x80); s[n - 1] = c; s[n] = 0;
    CHECK(zpl_utf8_to_ucs2(o, n + 1, s) == o && o[0] == 'a' && o[n - 1] == c && o[n] == 0, "converted"); CHECK(zpl_ucs2_to_utf8(b, n + 1, o) == b && b[0] == 'a' && b[n - 1] == c && b[n] == 0, "and back"); CHECK(!zpl_utf8_to_ucs2(o, n, s), "one place short is refused"); zpl_u16 *q = zpl_utf8_to_ucs2_buf(s); CHECK(!q == (n >= 4096), "the static buffer takes what fits"); if (q) CHECK(q[n - 1] == c && q[n] == 0, "converted"); for (int i = 0; i < n; i++) o[i] = (unsigned short)('a' + i % 26); o[n - 1] = c; o[n] = 0; zpl_u8 *r = zpl_ucs2_to_utf8_buf(o); CHECK(!r == (n >= 4096), "the static buffer takes what fits"); if (r) CHECK(r[n - 1] == c && r[n] == 0, "converted"); free(s); free(b); free(o); REACHED();
}
