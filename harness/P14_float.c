// P14: text -> floating point
#include "vp.h"
#ifndef N
#define N 4
#endif
static int isd(char c) { return c >= '0' && c <= '9'; }
static int issp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
//@ x=h_scan q="N=4,T=60" t="N=6,T=900,J=8;N=5,T=300" what="arbitrary text: exactly the numeral is consumed and the text is never left"
void h_scan(void) {
    char *s = vp_str(N), *e = 0; int i = 0; zpl_f64 v = zpl_str_to_f64(s, &e); (void)v;
    while (issp(s[i])) i++; if (s[i] == '-' || s[i] == '+') i++; while (isd(s[i])) i++; if (s[i] == '.') { i++; while (isd(s[i])) i++; }
    if (s[i] == 'e' || s[i] == 'E') { i++; if (s[i] == '-' || s[i] == '+') i++; while (isd(s[i])) i++; }
    CHECK(e == s + i, "consumed text"); free(s); REACHED();
}
#ifndef D
#define D 4
#endif
//@ x=h_int q="D=3,T=60" t="D=5,T=600,J=8;D=4,T=200" what="integers of up to D digits with sign and exponent 0..3 parse exactly"
void h_int(void) {
    char *s = (char *)malloc(D + 6), *p = s; int neg = nd_pick(0, 2), n = nd_pick(1, D), ex = nd_pick(-1, 3); double w = 0; if (neg == 1) *p++ = '-'; if (neg == 2) *p++ = '+';
    for (int i = 0; i < n; i++) { int d = nd_pick(0, 9); *p++ = (char)('0' + d); w = w * 10 + d; } if (ex >= 0) { *p++ = nd_pick(0, 1) ? 'e' : 'E'; if (nd_pick(0, 1)) *p++ = '+'; *p++ = (char)('0' + ex); for (int i = 0; i < ex; i++) w *= 10; } *p = 0;
    char *e; zpl_f64 v = zpl_str_to_f64(s, &e); CHECK(v == (neg == 1 ? -w : w) && e == p, "exact value"); CHECK(zpl_str_to_f32(s, NULL) == (float)(neg == 1 ? -w : w), "single precision"); free(s); REACHED();
}
//@ x=h_frac q="D=3,T=60" t="D=4,T=600,J=8" what="decimal fractions with negative or positive exponents parse to within a few ulps of the denoted value"
void h_frac(void) {
    char *s = (char *)malloc(2 * D + 8), *p = s; int n = nd_pick(0, 2), f = nd_pick(1, D), ex = nd_pick(0, 2); double num = 0, den = 1;
    for (int i = 0; i < n; i++) { int d = nd_pick(0, 9); *p++ = (char)('0' + d); num = num * 10 + d; } *p++ = '.'; for (int i = 0; i < f; i++) { int d = nd_pick(0, 9); *p++ = (char)('0' + d); num = num * 10 + d; den *= 10; }
    if (ex) { *p++ = 'e'; if (ex == 1) *p++ = '-'; *p++ = '1'; *p++ = '2'; if (ex == 1) den *= 1e12; else num *= 1e12; } *p = 0;
    double w = num / den, v = zpl_str_to_f64(s, NULL), d = v > w ? v - w : w - v; CHECK(d <= w * 1e-14, "nearby value"); if (!ex) CHECK(v == w, "the nearest value when there is no exponent"); free(s); REACHED();
}
//@ x=h_exp q="T=60" what="exponents of any size up to the cap stay finite, are monotone and zero stays zero"
void h_exp(void) {
    char s[16]; int ex = nd_pick(0, 255) + nd_pick(0, 1) * 200, sg = nd_pick(0, 1), i = 0; s[i++] = (char)('0' + nd_pick(0, 1)); s[i++] = 'e'; if (sg) s[i++] = '-'; s[i++] = '0' + ex / 100; s[i++] = '0' + ex / 10 % 10; s[i++] = '0' + ex % 10; s[i] = 0;
    double v = zpl_str_to_f64(s, NULL); int c = ex > 308 ? 308 : ex; if (s[0] == '0') CHECK(v == 0, "zero"); else { double w = 1; for (int k = 0; k < c; k++) w *= 10; if (sg) w = 1 / w; double d = v > w ? v - w : w - v; CHECK(d <= w * 1e-12, "power of ten"); } REACHED();
}
//@ x=h_sym q="SD=1,T=60" t="SD=2,T=300;SD=3,T=600,J=8" what="symbolic digits decided over IEEE-754 arithmetic: the parsed double equals the integer value"
#ifndef SD
#define SD 2
#endif
void h_sym(void) {
    char s[SD + 2]; int neg = nd_pick(0, 1), v = 0; char *p = s; if (neg) *p++ = '-'; for (int i = 0; i < SD; i++) { char c = nd_char(); ASSUME(c >= '0' && c <= '9'); *p++ = c; v = v * 10 + (c - '0'); } *p = 0;
    zpl_f64 f = zpl_str_to_f64(s, NULL); CHECK(f == (neg ? -(double)v : (double)v), "value"); REACHED();
}
