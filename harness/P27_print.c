// P27: the text denotes the argument: reference formatting written from the documented conversions
#include "vp.h"
static char out[80], ref[80]; static int rn;
static void put(char c) { ref[rn++] = c; }
/* digits of a magnitude with sign, width and flags */
static void refnum(zpl_u64 mag, int neg, int base, int upper, int width, int minus, int zero) {
    char d[70]; int n = 0; do { int k = (int)(mag % (unsigned)base); d[n++] = (char)(k < 10 ? '0' + k : (upper ? 'A' : 'a') + k - 10); mag /= (unsigned)base; } while (mag); rn = 0;
    int pad = width - n - neg; if (pad < 0) pad = 0; if (!minus && !zero) for (int i = 0; i < pad; i++) put(' '); if (neg) put('-'); if (!minus && zero) for (int i = 0; i < pad; i++) put('0'); while (n) put(d[--n]); if (minus) for (int i = 0; i < pad; i++) put(' ');
}
static void same(zpl_isize r) { CHECK(r == rn + 1, "length"); for (int i = 0; i < rn; i++) CHECK(out[i] == ref[i], "text"); CHECK(out[rn] == 0, "terminated"); }
static const zpl_u64 near[] = {0, 0x70, 0x7f80, 0xff80, 0x7fffff80ull, 0xffffff80ull, 0x7fffffffffffff80ull, 0xffffffffffffff80ull, 9950, 999999950};
//@ x=h_int q="T=60,J=4" t="T=600,J=8" what="integers of every length modifier, base and sign, near every type limit"
void h_int(void) {
    zpl_u64 v = near[nd_pick(0, 9)] + nd_u8(); int how = nd_pick(0, 16); zpl_isize r = 0; 
#define S(T, f, a) { T x = (T)v; r = zpl_snprintf(out, 80, f, a x); zpl_i64 y = (zpl_i64)x; refnum(y < 0 ? 0 - (zpl_u64)y : (zpl_u64)y, y < 0, 10, 0, 0, 0, 0); break; }
#define U(T, f, b, up, a) { T x = (T)v; r = zpl_snprintf(out, 80, f, a x); refnum((zpl_u64)x, 0, b, up, 0, 0, 0); break; }
    switch (how) {
    case 0: S(int, "%d", ) case 1: S(int, "%i", ) case 2: S(signed char, "%hhd", (int)) case 3: S(short, "%hd", (int)) case 4: S(long, "%ld", ) case 5: S(long long, "%lld", ) case 6: S(zpl_isize, "%td", )
    case 7: U(unsigned, "%u", 10, 0, ) case 8: U(unsigned char, "%hhu", 10, 0, (int)) case 9: U(unsigned short, "%hu", 10, 0, (int)) case 10: U(unsigned long, "%lu", 10, 0, ) case 11: U(unsigned long long, "%llu", 10, 0, ) case 12: U(zpl_usize, "%zu", 10, 0, ) case 13: U(unsigned long long, "%llx", 16, 0, ) case 14: U(unsigned, "%X", 16, 1, )
    case 15: { int x = (int)(v & 0x7fffffff); r = zpl_snprintf(out, 80, "%o", x); refnum((zpl_u64)x, 0, 8, 0, 0, 0, 0); break; }
    default: { r = zpl_snprintf(out, 80, "%p", (void *)v); refnum(v, 0, 16, 0, 0, 0, 0); } }
    same(r); REACHED();
}
//@ x=h_width q="T=60,J=4" t="T=300,J=8" what="integers with every width up to 12 and the minus and zero flags, in the format and as an argument"
void h_width(void) {
    int v = (int)(near[nd_pick(0, 5)] + nd_u8()) * (nd_pick(0, 1) ? 1 : -1), w = nd_pick(1, 12), how = nd_pick(0, 5); zpl_isize r; char f[8]; int k = 0; f[k++] = '%'; if (how == 1 || how == 2) f[k++] = '-'; if (how >= 2 && how <= 3) f[k++] = '0'; if (how <= 3) { if (w >= 10) f[k++] = '1'; f[k++] = (char)('0' + w % 10); } else f[k++] = '*'; f[k++] = 'd'; f[k] = 0;
    if (how <= 3) r = zpl_snprintf(out, 80, f, v); else r = zpl_snprintf(out, 80, f, how == 5 ? -w : w, v); int minus = how == 1 || how == 2 || how == 5, zero = how == 3; refnum(v < 0 ? 0 - (zpl_u64)(zpl_i64)v : (zpl_u64)v, v < 0, 10, 0, w, minus, zero); same(r); REACHED();
}
//@ x=h_text q="TL=3,T=60,J=4" t="TL=5,T=300,J=8" what="strings and characters with every width, precision and text, literal text and the percent sign"
#ifndef TL
#define TL 3
#endif
void h_text(void) {
    char *s = vp_str(TL); int n = rlen(s), how = nd_pick(0, 7), w = nd_pick(1, 6), p = nd_pick(0, 4), k = n; zpl_isize r; rn = 0; char c = nd_char(); ASSUME(c && c != '%');
    if (how == 0) { r = zpl_snprintf(out, 80, "%s", s); w = 0; } else if (how == 1) r = zpl_snprintf(out, 80, "%*s", w, s); else if (how == 2) r = zpl_snprintf(out, 80, "%-*s", w, s); else if (how == 3) { r = zpl_snprintf(out, 80, "%.*s", p, s); w = 0; k = p < n ? p : n; } else if (how == 4) { r = zpl_snprintf(out, 80, "%*.*s", w, p, s); k = p < n ? p : n; }
    else if (how == 5) { r = zpl_snprintf(out, 80, "%c%%%s", c, s); put(c); put('%'); w = 0; } else if (how == 6) { r = zpl_snprintf(out, 80, "%*r%s", w, c, s); for (int i = 0; i < w; i++) put(c); w = 0; } else { char f[4] = {c, '%', 's', 0}; r = zpl_snprintf(out, 80, f, s); put(c); w = 0; }
    if (how != 2) for (int i = k; i < w; i++) put(' '); for (int i = 0; i < k; i++) put(s[i]); if (how == 2) for (int i = k; i < w; i++) put(' '); same(r); free(s); REACHED();
}
//@ x=h_fix q="T=60,J=4" t="T=600,J=8" what="fixed-point text of binary and decimal fractions is the value cut at the printed places; sign, plus, width and padding as asked"
void h_fix(void) {
    int k = nd_u8(), j = nd_pick(0, 8), p = nd_pick(0, 7), dec = nd_pick(0, 1), big = nd_pick(0, 2), neg = nd_pick(0, 1), fl = nd_pick(0, 3); ASSUME(k > 0); zpl_u64 add = big == 0 ? 0 : big == 1 ? 1000 : 123456789; zpl_u64 den = 1; if (dec) for (int i = 0; i < j / 2; i++) den *= 10; else den <<= j; double v = (double)(k + add * den) / (double)den; if (neg) v = -v;
    zpl_u64 ten = 1; for (int i = 0; i < p; i++) ten *= 10; zpl_u64 num = (k + add * den) * ten / den; /* the exact value cut at p places */
    zpl_isize r = fl == 0 ? zpl_snprintf(out, 80, "%.*f", p, v) : fl == 1 ? zpl_snprintf(out, 80, "%+.*f", p, v) : fl == 2 ? zpl_snprintf(out, 80, "%16.*f", p, v) : zpl_snprintf(out, 80, "%-16.*f", p, v); CHECK(r >= 2 && r <= 40, "length"); int i = 0; if (fl == 2) while (out[i] == ' ') i++; if (neg) { CHECK(out[i] == '-', "sign"); i++; } else if (fl == 1) { CHECK(out[i] == '+', "plus sign"); i++; }
    zpl_u64 got = 0; int digits = 0, after = -1; for (; out[i] && out[i] != ' '; i++) { if (out[i] == '.') { CHECK(after < 0 && digits, "one point after a digit"); after = 0; continue; } CHECK(out[i] >= '0' && out[i] <= '9', "digits only"); got = got * 10 + (unsigned)(out[i] - '0'); digits++; if (after >= 0) after++; }
    CHECK(p == 0 ? after < 0 : after == p, "as many places as asked"); CHECK(got == num, "the text is the value cut at the printed places"); int end = i; while (out[i] == ' ') i++; CHECK(out[i] == 0 && r == i + 1, "nothing else"); if (fl >= 2) CHECK(r - 1 == (end > 16 ? end : 16), "padded to the width"); REACHED();
}
//@ x=h_big q="T=60" what="fixed-point text of huge values (every decade up to the largest number there is) and of values that are no numbers: all digits, the right magnitude, sign, width and padding as asked"
void h_big(void) {
    static char o[420]; int k = nd_pick(0, 7), e = nd_pick(0, 30) * 10 + nd_pick(0, 9), fl = nd_pick(0, 3), neg = nd_pick(0, 1), p = nd_pick(0, 1) * 2; static double const M[] = { 1, 9.5, 1.8, 1.9, 2.5, 9.99999999999, 1.2345678901234567, 5 }; double v = M[k]; for (int i = 0; i < e; i++) v *= 10; if (e > 307 && k == 0) v = 1.7976931348623157e308; if (e > 307 && k == 1) v = 0 * v - 0 * v; if (neg) v = -v;
    zpl_isize r = fl == 0 ? zpl_snprintf(o, 420, "%.*f", p, v) : fl == 1 ? zpl_snprintf(o, 420, "%+.*f", p, v) : fl == 2 ? zpl_snprintf(o, 420, "%330.*f", p, v) : zpl_snprintf(o, 420, "%-330.*f", p, v); int i = 0; if (fl == 2) while (o[i] == ' ') i++; int b = i; char *q;
    if (v != v) { q = "nan"; if (o[i] == '-' || o[i] == '+') i++; while (*q) { CHECK(o[i] == *q, "no number"); i++; q++; } } else { if (neg) { CHECK(o[i] == '-', "sign"); i++; } else if (fl == 1) { CHECK(o[i] == '+', "plus sign"); i++; }
        if (v > 1.7976931348623157e308 || v < -1.7976931348623157e308) { for (q = "inf"; *q; q++) { CHECK(o[i] == *q, "infinity"); i++; } }
        else { double w = 0, s = 1, a = v < 0 ? -v : v; int n = 0; int last = a > 1e307; while (o[i] >= '0' && o[i] <= '9') { if (!last || (o[i + 1] >= '0' && o[i + 1] <= '9')) w = w * 10 + (o[i] - '0'); i++; n++; } CHECK(n > 0 && (n == 1 || o[i - n] != '0'), "digits, no leading zero"); if (p) { CHECK(o[i] == '.', "a point"); i++; for (int j = 0; j < p; j++, i++) { CHECK(o[i] >= '0' && o[i] <= '9', "places"); s /= 10; w += (o[i] - '0') * s; } } if (last) a /= 10; double d = w > a ? w - a : a - w; CHECK(d <= a * 1e-13 + s, "the magnitude of the value"); if (a >= 1 && a < 9e15 && !p) { zpl_u64 x = 0; for (int j = 0; j < n; j++) x = x * 10 + (unsigned)(o[i - n + j] - '0'); zpl_u64 y = (zpl_u64)a; CHECK(x == y || x == y + 1, "the whole number"); } } }
    int end = i; while (o[i] == ' ') i++; CHECK(o[i] == 0 && r == i + 1, "nothing else"); if (fl == 2 && b) CHECK(end == 330, "right aligned"); if (fl >= 2) CHECK(r >= 331, "padded to the width"); REACHED();
}
