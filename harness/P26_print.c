// P26: bounded formatted output: nothing outside the buffer, always terminated, the prefix of the full text, exact length
#include "vp_posix.h"
#include "vp.h"
static int px_fault(int k) { (void)k; return 0; }
#ifndef FL
#define FL 3
#endif
#ifndef NB
#define NB 6
#endif
#define BIG 800
static char big[BIG];
static void bounded(zpl_isize full, char *b, zpl_isize n, zpl_isize r, int nul) {
    CHECK(full >= 1 && full <= BIG, "the full text has a length"); CHECK(big[full - 1] == 0, "the full text is terminated");
    if (!nul) for (int i = 0; i + 1 < full; i++) CHECK(big[i] != 0, "no terminator inside the text");
    if (n <= 0) { CHECK(r == -1, "no room for a terminator is reported"); return; }
    int keep = full <= n ? (int)full - 1 : (int)n - 1; for (int i = 0; i < keep; i++) CHECK(b[i] == big[i], "a truncated text is a prefix of the full text"); CHECK(b[keep] == 0, "terminated"); CHECK(r == (full <= n ? full : -1), "length written, or the failure to fit");
}
#define BOTH(fmt, ...) do { zpl_isize full_ = zpl_snprintf(big, BIG, fmt, __VA_ARGS__); int n_ = nd_pick(0, NB); char *b_ = malloc((size_t)n_); zpl_isize r_ = zpl_snprintf(b_, n_, fmt, __VA_ARGS__); bounded(full_, b_, n_, r_, nul); free(b_); } while (0)
//@ x=h_any q="FL=3,NB=5,T=60,J=4" t="FL=4,NB=5,T=900,J=8;FL=3,NB=8,T=300,J=4" what="every format of up to FL arbitrary bytes, every buffer size up to NB"
void h_any(void) { char *f = vp_str(FL); int nul = 1; for (int i = 0; f[i]; i++) ASSUME(f[i] != '*'); char *s = vp_strn(2); BOTH(f, s, s, s, s, 1.5, -2.0); free(s); free(f); REACHED(); }
//@ x=h_str q="SL=4,NB=7,T=60,J=4" t="SL=6,NB=12,T=600,J=8" what="strings with every width, precision, flag, text and buffer size; missing strings; the precision bounds what is read"
#ifndef SL
#define SL 4
#endif
void h_str(void) {
    int nul = 0, how = nd_pick(0, 5), w = nd_pick(0, 10) - 5, l = nd_pick(0, SL); char *s = vp_strn(l); if (how == 0) BOTH("<%s>", s); else if (how == 1) BOTH("%*s|", w, s); else if (how == 2) BOTH("%-5s%s", s, s); else if (how == 3) { int p = nd_pick(0, l); char *raw = malloc((size_t)p); for (int i = 0; i < p; i++) raw[i] = s[i]; BOTH("%*.*s", w, p, raw); free(raw); } else if (how == 4) BOTH("%s%5s", (char *)0, s); else BOTH("%05s%-6s%%", s, s); free(s); REACHED();
}
//@ x=h_num q="NB=6,T=60,J=4" t="NB=24,T=600,J=8" what="numbers, characters and repeated characters with every width and buffer size, values near every type limit"
void h_num(void) {
    static const zpl_u64 base[] = {0, 0x7fffff80ull, 0xffffff80ull, 0x7fffffffffffff80ull, 0xffffffffffffff80ull, 99900}; zpl_u64 v = base[nd_pick(0, 5)] + nd_u8(); int nul = 0, how = nd_pick(0, 8), w = nd_pick(0, 9) - 3; if (w == 0) w = 9; 
    if (how == 0) BOTH("%d.", (int)v); else if (how == 1) BOTH("%*lld", w, (long long)v); else if (how == 2) BOTH("%0*llx", w, (unsigned long long)v); else if (how == 3) BOTH("%llX%hhu", (unsigned long long)v, (int)v); else if (how == 4) BOTH("%o;%hd", (int)v, (int)v); else if (how == 5) BOTH("%p", (void *)v); else if (how == 6) BOTH("%*r%td", w, (int)(v & 127) | 1, (zpl_isize)v); else if (how == 7) BOTH("%*c%zu", w, (int)(v & 127) | 1, (zpl_usize)v); else BOTH("%u%-*i", (unsigned)v, w < 0 ? -w : w, (int)v);
    REACHED();
}
//@ x=h_flt q="NB=6,T=60,J=4" t="NB=24,T=900,J=8" what="floating-point numbers of every sign and exponent (infinities and NaN included), every width, precision and buffer size"
void h_flt(void) {
    static const short ex[] = {0, 1, 512, 970, 1000, 1011, 1016, 1019, 1020, 1021, 1022, 1023, 1024, 1026, 1029, 1033, 1043, 1054, 1055, 1074, 1075, 1085, 1086, 1087, 1100, 1200, 2046, 2047}; static const signed char ws[] = {0, 5, -5, 9, -3, 2}, ps[] = {6, 0, 2, 1, 3, 0};
    union { zpl_u64 u; double f; } c; int m = nd_pick(0, 2); c.u = (zpl_u64)nd_pick(0, 1) << 63 | (zpl_u64)ex[nd_pick(0, 27)] << 52; c.u |= m == 0 ? 0 : m == 1 ? 0xfffffffffffffull : 0x5555555555500ull | nd_u8();
    int nul = 0, how = nd_pick(0, 3), k = nd_pick(0, how == 1 ? 5 : 0), w = ws[k], p = ps[k]; if (how == 0) BOTH("%f", c.f); else if (how == 1) BOTH("%*.*f;", w, p, c.f); else if (how == 2) BOTH("%+08.1f", c.f); else BOTH("%#.0f%-7.2f", c.f, c.f); REACHED();
}
//@ x=h_alias q="T=60" what="text placed in allocated, static and stream targets equals the bounded form; the file receives exactly the characters of the text"
void h_alias(void) {
    vp_live = 0; vp_fail_at = -1; px_f[0].exists = 1; px_f[0].n = 0; char *s = vp_str(3); int v = nd_u8(); zpl_isize full = zpl_snprintf(big, BIG, "%s:%d", s, v); char *o; CHECK(zpl_asprintf(vp_heap(), &o, "%s:%d", s, v) == full, "length"); for (int i = 0; i < full; i++) CHECK(o[i] == big[i], "allocated text"); zpl_free(vp_heap(), o); CHECK(vp_live == 0, "no leak");
    char *b = zpl_bprintf("%s:%d", s, v); for (int i = 0; i < full; i++) CHECK(b[i] == big[i], "static text");
    zpl_file f; CHECK(zpl_file_open_mode(&f, ZPL_FILE_MODE_WRITE, "a") == ZPL_FILE_ERROR_NONE, "opened"); CHECK(zpl_fprintf(&f, "%s:%d", s, v) == full, "length"); CHECK(px_f[0].n == full - 1, "exactly the characters"); for (int i = 0; i < full - 1; i++) CHECK((char)px_f[0].d[i] == big[i], "written text"); zpl_file_close(&f); free(s); REACHED();
}
//@ x=h_prec q="T=60" what="a precision beyond the end of the string: the string is printed whole and nothing behind its terminator is read"
void h_prec(void) { int l = nd_pick(0, 9), p = l + nd_pick(0, 17), off = nd_pick(0, 7); char *raw = (char *)malloc(off + l + 1), *s = raw + off; for (int i = 0; i < l; i++) { s[i] = nd_char(); ASSUME(s[i]); } s[l] = 0; CHECK(zpl_snprintf(big, BIG, "%.*s", p, s) == l + 1, "length"); for (int i = 0; i <= l; i++) CHECK(big[i] == s[i], "the whole string"); free(raw); REACHED(); }
//@ x=h_large q="T=60,STEPS=30000000" what="texts around and beyond the internal buffer size: the prefix that fits, terminated, truncation reported, in caller, static and allocated targets"
void h_large(void) {
    static int const L[5] = { 4095, ZPL_PRINTF_MAXLEN - 2, ZPL_PRINTF_MAXLEN - 1, ZPL_PRINTF_MAXLEN, ZPL_PRINTF_MAXLEN + 4000 }; int l = L[nd_pick(0, 4)], cap = l + nd_pick(0, 3); vp_live = 0; vp_fail_at = -1; char *s = vp_strn(0), *b; free(s); s = (char *)malloc(l + 1); for (int i = 0; i < l; i++) s[i] = (char)('a' + i % 26); char c = nd_char(); ASSUME(c); s[l - 1] = c; s[l] = 0;
    b = (char *)malloc(cap); zpl_isize r = zpl_snprintf(b, cap, "%s", s); int k = l < cap ? l : cap - 1; CHECK(r == (l < cap ? l + 1 : -1), "length or the failure to fit"); CHECK(b[k] == 0 && b[k - 1] == s[k - 1] && b[0] == 'a', "prefix, terminated"); free(b);
    k = l < ZPL_PRINTF_MAXLEN ? l : ZPL_PRINTF_MAXLEN - 1; b = zpl_bprintf("%s", s); CHECK(b[k] == 0 && b[k - 1] == s[k - 1] && b[0] == 'a', "static text"); r = zpl_asprintf(vp_heap(), &b, "%s", s); CHECK(r == (l == k ? l + 1 : -1), "length or the failure to fit"); CHECK(b[k] == 0 && b[k - 1] == s[k - 1] && b[0] == 'a', "allocated text"); zpl_free(vp_heap(), b); CHECK(vp_live == 0, "no leak"); free(s); REACHED();
}
