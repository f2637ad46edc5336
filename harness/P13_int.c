// P13: integer <-> text
#include "vp.h"
#ifndef BS
#define BS 10
#endif
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 36 : c == '@' ? 62 : c == '$' ? 63 : -1; }
/* value of a canonical numeral; also checks it has no leading zero */
static zpl_u64 val(const char *s, int n, int base) { zpl_u64 v = 0; for (int i = 0; i < n; i++) { int d = dig(s[i]); CHECK(d >= 0 && d < base, "digit of the base"); v = v * (unsigned)base + (unsigned)d; } CHECK(n == 1 || s[0] != '0', "no leading zero"); return v; }
//@ x=h_small q="T=60" t="BITS=20,T=900,J=8;T=60" what="every base 2..36 (also 62, 64), every value below 2^10 around zero, around every power-of-two boundary and at both extremes: canonical digits, sign, termination"
#ifndef BITS
#define BITS 10
#endif
void h_small(void) {
    static int const bases[] = { 2, 3, 7, 8, 10, 11, 16, 32, 36, 62, 64 }; int base = bases[nd_pick(0, 10)];
    static zpl_u64 const anchors[] = { 0, 0x7fffffffull, 0x100000000ull, 0x7fffffffffffff00ull, 0x8000000000000000ull, 0xffffffffffffff00ull }; zpl_u64 a = anchors[nd_pick(0, 5)];
    zpl_u64 v = a + nd_u8(); char *b = (char *)malloc(66); memset(b, 'x', 66);
    if (nd_pick(0, 1)) { zpl_u64_to_str(v, b, base); int n = 0; while (b[n]) n++; CHECK(val(b, n, base) == v, "unsigned digits denote the value"); }
    else { zpl_i64_to_str((zpl_i64)v, b, base); int n = 0, neg = (zpl_i64)v < 0; while (b[n]) n++; CHECK((b[0] == '-') == neg, "sign"); CHECK(val(b + neg, n - neg, base) == (neg ? 0 - v : v), "signed digits denote the value"); }
    free(b); REACHED();
}
#ifdef WB
#define HB WB
#else
#define HB 24
#endif
static zpl_u64 nd_window(void) { zpl_u64 v = nd_u32() & ((1u << (HB - 1)) * 2u - 1); return v << (4 * nd_pick(0, 10)); }
//@ x=h_bits q="T=60" what="every 64-bit value in base 2 and 16: the digits are the bits, no leading zero"
void h_bits(void) {
    zpl_u64 v = nd_u64(); char *b = (char *)malloc(65); int base = nd_pick(0, 1) ? 16 : 2, sh = base == 16 ? 4 : 1; zpl_u64_to_str(v, b, base); int n = 0; while (b[n]) n++;
    CHECK(n == 1 || b[0] != '0', "no leading zero"); CHECK(n * sh >= 64 || !(v >> (n * sh)), "every bit is written");
    for (int i = 0; i < n; i++) { unsigned d = (unsigned)(v >> (sh * (n - 1 - i))) & ((1u << sh) - 1); CHECK((unsigned char)b[i] == '0' + d + (d > 9) * 7u, "digits are the bits"); } free(b); REACHED();
}
//@ x=h_u64_2 q="T=60" t="WB=32,T=900,J=8;T=60" what="every 24-bit window (32 in thorough) at every nibble position in base 16: parsing restores the value"
void h_u64_2(void) {
    zpl_u64 v = nd_window(); char *b = (char *)malloc(65); zpl_u64_to_str(v, b, 16); int n = 0; while (b[n]) n++;
    { char *e; CHECK(zpl_str_to_u64(b, &e, 16) == v && e == b + n, "hexadecimal round trip, whole numeral consumed"); }
    free(b); REACHED();
}
//@ x=h_i64_16 q="T=60" t="WB=32,T=900,J=8;T=60" what="the same windows, negated or not, in base 16: sign and magnitude, parse restores the value"
void h_i64_16(void) {
    zpl_u64 v = nd_window(); if (nd_pick(0, 1)) v = 0 - v; char *b = (char *)malloc(18); zpl_i64_to_str((zpl_i64)v, b, 16); int n = 0; while (b[n]) n++; char *e; CHECK((b[0] == '-') == ((zpl_i64)v < 0), "sign"); CHECK((zpl_u64)zpl_str_to_i64(b, &e, 16) == v && e == b + n, "hexadecimal round trip"); free(b); REACHED();
}
#ifndef DG
#define DG 4
#endif
//@ x=h_dec q="DG=4,T=60" t="DG=6,T=900,J=8;DG=5,T=200" what="every value of up to DG decimal digits, offset by every decimal power: decimal and octal round trip"
void h_dec(void) {
    zpl_u64 lim = 1; for (int i = 0; i < DG; i++) lim *= 10; zpl_u64 v = nd_u32(); ASSUME(v < lim);
    char *b = (char *)malloc(24), *e; int neg = nd_pick(0, 1); zpl_i64_to_str(neg ? -(zpl_i64)v : (zpl_i64)v, b, 10); int n = 0; while (b[n]) n++; zpl_i64 r = zpl_str_to_i64(b, &e, 10); CHECK(r == (neg ? -(zpl_i64)v : (zpl_i64)v) && e == b + n, "decimal round trip"); CHECK(zpl_str_to_i64(b, &e, 0) == r, "base zero means decimal");
    if (!neg) { CHECK(zpl_str_to_u64(b, &e, 10) == v && e == b + n, "unsigned decimal round trip"); } free(b); REACHED();
}
#ifndef N
#define N 4
#endif
//@ x=h_parse q="N=4,T=60" t="N=6,T=600,J=8;N=5,T=200" what="parsing arbitrary text: value and consumed length equal the leading numeral, no read past the terminator"
void h_parse(void) {
    char *s = vp_str(N), *e = 0; int base = nd_pick(0, 2) , l = rlen(s); base = base == 0 ? 0 : base == 1 ? 10 : 16;
    int i = 0, neg = 0, sg = nd_pick(0, 1); int b = base; if (!b) b = l > 2 && s[0] == '0' && s[1] == 'x' ? 16 : 10;
    if (sg && s[i] == '-') { neg = 1; i++; } if (b == 16 && s[i] == '0' && s[i + 1] == 'x') i += 2;
    zpl_u64 v = 0; for (;; i++) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : b == 16 && s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : b == 16 && s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : -1; if (d < 0) break; v = v * (unsigned)b + (unsigned)d; }
    if (sg) CHECK((zpl_u64)zpl_str_to_i64(s, &e, base) == (neg ? 0 - v : v), "signed value"); else CHECK(zpl_str_to_u64(s, &e, base) == v, "unsigned value");
    CHECK(e == s + i, "exactly the numeral is consumed"); free(s); REACHED();
}
