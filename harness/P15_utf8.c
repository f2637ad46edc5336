// P15: UTF-8 codec against the Unicode definition (Table 3-7)
#include "vp.h"
/* reference: length of the well-formed sequence at p (0 if malformed or cut off) */
static int ref_len(unsigned char const *p, int n) {
    unsigned a = p[0]; if (a < 0x80) return 1; if (a < 0xC2 || a > 0xF4) return 0;
    int k = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; if (n < k) return 0; unsigned lo = a == 0xE0 ? 0xA0 : a == 0xF0 ? 0x90 : 0x80, hi = a == 0xED ? 0x9F : a == 0xF4 ? 0x8F : 0xBF;
    if (p[1] < lo || p[1] > hi) return 0; for (int i = 2; i < k; i++) if (p[i] < 0x80 || p[i] > 0xBF) return 0; return k;
}
static unsigned ref_cp(unsigned char const *p, int k) { if (k == 1) return p[0]; unsigned c = p[0] & (0xFFu >> (k + 1)); for (int i = 1; i < k; i++) c = c << 6 | (p[i] & 63); return c; }
//@ x=h_decode q="T=60" what="every byte sequence of 0 to 5 bytes: code point and width, or the replacement with width one; never reads past the length"
void h_decode(void) {
    int n = nd_pick(0, 5); unsigned char *p = vp_bytes(n); zpl_rune r = 0; zpl_isize w = zpl_utf8_decode(p, n, &r);
    if (n == 0) CHECK(w == 0 && r == ZPL_RUNE_INVALID, "empty input");
    else { int k = ref_len(p, n); if (k) CHECK(w == k && (unsigned)r == ref_cp(p, k), "well-formed sequence"); else CHECK(w == 1 && r == ZPL_RUNE_INVALID, "malformed sequence"); CHECK(zpl_utf8_decode(p, n, NULL) == w, "no output requested"); }
    free(p); REACHED();
}
//@ x=h_encode q="T=60" what="every 32-bit rune: standard encoding, replacement for surrogates and out of range, decode is the inverse"
void h_encode(void) {
    unsigned r = nd_u32(); unsigned char b[4] = {0xCC, 0xCC, 0xCC, 0xCC}; zpl_isize n = zpl_utf8_encode_rune(b, (zpl_rune)r), k = r < 0x80 ? 1 : r < 0x800 ? 2 : r < 0x10000 ? 3 : 4; unsigned e = r; if (r > 0x10FFFF || (r >= 0xD800 && r <= 0xDFFF)) { e = 0xFFFD; k = 3; }
    CHECK(n == k, "encoded length"); CHECK(ref_len(b, (int)k) == k && ref_cp(b, (int)k) == e, "encoded bytes"); for (int i = (int)k; i < 4; i++) CHECK(b[i] == 0xCC, "no byte beyond the encoding");
    zpl_rune d = 0; CHECK(zpl_utf8_decode(b, n, &d) == n && (unsigned)d == e, "decoding restores the rune"); CHECK(zpl_utf8_codepoint_size(b, n) == n, "code point size"); REACHED();
}
//@ x=h_len q="T=60" t="N=4,T=600,J=8" what="well-formed text of N code points: code point counts, bounded counts, first code point size"
#ifndef N
#define N 3
#endif
void h_len(void) {
    int c = nd_pick(0, N), n = 0; unsigned char t[4 * N + 1]; int off[N + 1];
    for (int i = 0; i < c; i++) { int k = nd_pick(1, 4); off[i] = n; nd_bytes(t + n, k); ASSUME(t[n] && ref_len(t + n, k) == k); n += k; } off[c] = n;
    unsigned char *s = (unsigned char *)malloc(n + 1); for (int i = 0; i < n; i++) s[i] = t[i]; s[n] = 0;
    CHECK(zpl_utf8_strlen(s) == c, "code point count"); if (c) CHECK(zpl_utf8_codepoint_size(s, n) == off[1], "size of the first code point"); int k = nd_pick(0, c); CHECK(zpl_utf8_strnlen(s, off[k]) == k, "bounded code point count"); free(s); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" what="long texts: counts and bounded counts of tens of thousands of code points with an arbitrary well-formed one near the end"
void h_large(void) {
    static int const L[3] = { 255, 4096, 65536 }; int c = L[nd_pick(0, 2)], w = nd_pick(1, 4), k = nd_pick(1, 4); static unsigned char const u[5][4] = { { 0 }, { 'x' }, { 0xC3, 0xA9 }, { 0xE2, 0x82, 0xAC }, { 0xF0, 0x9F, 0x98, 0x80 } }; unsigned char x[4]; nd_bytes(x, k); ASSUME(x[0] && ref_len(x, k) == k);
    unsigned char *s = (unsigned char *)malloc(c * w + k + 1); for (int i = 0; i < c * w; i++) s[i] = u[w][i % w]; for (int i = 0; i < k; i++) s[c * w + i] = x[i]; s[c * w + k] = 0; CHECK(zpl_utf8_strlen(s) == c + 1, "code point count"); CHECK(zpl_utf8_strnlen(s, c * w) == c, "bounded count"); CHECK(zpl_utf8_strnlen(s, c * w + k) == c + 1, "bounded count"); free(s); REACHED();
}
