// P21: bit, endian, alignment, power of two, digit and count helpers
#include "vp.h"
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64;
//@ x=h_bits q="T=60" what="bit set, get, reset and population count for every word and every position"
void h_bits(void) {
    u32 x = nd_u32(), b = nd_u32(); ASSUME(b < 32); u32 y = x; int i = nd_pick(0, 31);
    zpl_bit_set(&y, b); CHECK((y >> b & 1) == 1 && ((y ^ x) & ~(1u << b)) == 0, "set changes exactly the bit"); CHECK(zpl_bit_get(y, b) != 0, "a set bit reads as set"); CHECK((zpl_bit_get(x, b) != 0) == (x >> b & 1), "get"); CHECK((zpl_bit_get(y, (u32)i) != 0) == (y >> i & 1), "get of another bit");
    zpl_bit_reset(&y, b); CHECK((y >> b & 1) == 0 && ((y ^ x) & ~(1u << b)) == 0, "reset changes exactly the bit"); CHECK(zpl_bit_get(y, b) == 0, "a reset bit reads as clear"); REACHED();
}
//@ x=h_count q="T=60,W=24" t="T=200,W=64" what="population count of every word below 2^W shifted to every place, and every single and double bit"
#ifndef W
#define W 24
#endif
void h_count(void) {
    u64 x; int k = nd_pick(0, 1); if (k) { x = nd_u64(); if (W < 64) ASSUME(x < 1ull << W % 64); } else { int a = nd_pick(0, 63), b = nd_pick(0, 63); x = 1ull << a | 1ull << b; }
    int n = 0; for (int i = 0; i < 64; i++) n += (int)(x >> i & 1); CHECK(zpl_count_set_bits(x) == n, "number of ones"); REACHED();
}
//@ x=h_endian q="T=60" what="byte swaps of every value are the byte reversal and their own inverse"
void h_endian(void) {
    zpl_u16 a = nd_u16(); u32 b = nd_u32(); u64 c = nd_u64(); zpl_u16 ra = zpl_endian_swap16(a); u32 rb = zpl_endian_swap32(b); u64 rc = zpl_endian_swap64(c);
    for (int i = 0; i < 2; i++) CHECK((u8)(ra >> 8 * i) == (u8)(a >> 8 * (1 - i)), "swap16"); for (int i = 0; i < 4; i++) CHECK((u8)(rb >> 8 * i) == (u8)(b >> 8 * (3 - i)), "swap32"); for (int i = 0; i < 8; i++) CHECK((u8)(rc >> 8 * i) == (u8)(c >> 8 * (7 - i)), "swap64");
    CHECK(zpl_endian_swap16(ra) == a && zpl_endian_swap32(rb) == b && zpl_endian_swap64(rc) == c, "involution"); REACHED();
}
//@ x=h_pow2 q="T=60" what="power-of-two test and rounding up for every argument"
void h_pow2(void) {
    zpl_isize v = nd_i64(); int is = 0; for (int i = 0; i < 63; i++) is |= v == (zpl_isize)(1ull << i); CHECK((zpl_is_power_of_two(v) != 0) == is, "power of two");
    int x = nd_i32(); ASSUME(x >= 1 && x <= 1 << 30); int r = zpl_next_pow2(x); CHECK(r >= x && (r & (r - 1)) == 0 && r / 2 < x, "the next power of two"); CHECK(zpl_next_pow2(0) == 0, "zero"); REACHED();
}
//@ x=h_align q="T=60,MA=6" t="T=300,MA=64" what="alignment of every pointer and size to every power of two up to 2^12, of small and huge sizes to every alignment up to MA"
#ifndef MA
#define MA 6
#endif
void h_align(void) {
    u64 p = nd_u64(); int s = nd_pick(0, 12); u64 al = 1ull << s; ASSUME(p < ~0ull - 8192); u64 q = (u64)zpl_align_forward((void *)p, (zpl_isize)al); CHECK((q & (al - 1)) == 0 && q >= p && q - p < al, "smallest aligned address not below");
    CHECK(zpl_align_forward_u64(p, al) == q, "size alignment agrees"); zpl_i64 sv = nd_i64(); ASSUME(sv >= 0 && sv < 0x7fffffffffff0000ll); zpl_i64 sr = zpl_align_forward_i64(sv, (zpl_isize)al); CHECK(sr >= sv && sr - sv < (zpl_i64)al && (sr & ((zpl_i64)al - 1)) == 0, "signed size alignment");
    int m = nd_pick(1, MA); u64 v = nd_u16(); if (nd_pick(0, 1)) v += 0xFFFFFFFFull - 7; u64 r = zpl_align_forward_u64(v, (zpl_usize)m); CHECK(r >= v && r - v < (u64)m && r % (u64)m == 0, "multiple of an arbitrary alignment");
    REACHED();
}
//@ x=h_ptr q="T=60" what="pointer offset helpers"
void h_ptr(void) {
    u64 p = nd_u64(), d = nd_u64(); CHECK((u64)zpl_pointer_add((void *)p, (zpl_isize)d) == p + d && (u64)zpl_pointer_sub((void *)p, (zpl_isize)d) == p - d, "moved pointer"); CHECK((u64)zpl_pointer_add_const((void *)p, (zpl_isize)d) == p + d && (u64)zpl_pointer_sub_const((void *)p, (zpl_isize)d) == p - d, "moved const pointer"); CHECK(zpl_pointer_diff((void *)p, (void *)(p + d)) == (zpl_isize)d, "difference"); REACHED();
}
//@ x=h_char q="T=60" what="character classes, case and digit conversions for every character"
void h_char(void) {
    char c = nd_char(); int dig = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', hex = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    CHECK((zpl_char_is_digit(c) != 0) == dig && (zpl_char_is_alpha(c) != 0) == (lo || up) && (zpl_char_is_alphanumeric(c) != 0) == (dig || lo || up) && (zpl_char_is_hex_digit(c) != 0) == hex, "classes");
    CHECK((zpl_char_is_space(c) != 0) == (c == 32 || (c >= 9 && c <= 13)), "space"); CHECK(zpl_char_to_lower(c) == (up ? c + 32 : c) && zpl_char_to_upper(c) == (lo ? c - 32 : c), "case");
    int hv = dig ? c - '0' : lo ? c - 'a' + 10 : c - 'A' + 10; if (dig) CHECK(zpl_digit_to_int(c) == c - '0', "decimal digit"); CHECK(zpl_hex_digit_to_int(c) == (hex ? hv : -1), "hex digit value"); CHECK(zpl_char_to_hex_digit(c) == (hex ? hv : 0), "hex digit"); if (lo) CHECK(zpl_digit_to_int(c) == c - 'a' + 10, "letter digit");
    CHECK((zpl_char_is_control(c) != 0) == (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 0), "escape characters (the terminator counts)"); REACHED();
}
//@ x=h_macros q="T=60" what="min, max, clamp, absolute value, interval and mask macros for every argument"
void h_macros(void) {
    int a = nd_i32(), b = nd_i32(), c = nd_i32(); int mn = zpl_min(a, b), mx = zpl_max(a, b); CHECK(mn <= a && mn <= b && (mn == a || mn == b) && mx >= a && mx >= b && (mx == a || mx == b), "min and max");
    int m3 = zpl_min3(a, b, c), x3 = zpl_max3(a, b, c); CHECK(m3 <= a && m3 <= b && m3 <= c && (m3 == a || m3 == b || m3 == c) && x3 >= a && x3 >= b && x3 >= c && (x3 == a || x3 == b || x3 == c), "of three");
    if (b <= c) { int r = zpl_clamp(a, b, c); CHECK(r >= b && r <= c && (r == a || (a < b && r == b) || (a > c && r == c)), "clamp"); } CHECK(zpl_is_between(a, b, c) == (b <= a && a <= c) && zpl_is_between_limit(a, b, c) == (b <= a && a < c), "intervals");
    if (a != (int)0x80000000) CHECK(zpl_abs(a) >= 0 && (zpl_abs(a) == a || zpl_abs(a) == -a), "abs"); u32 v = (u32)a, w = v; int set = nd_pick(0, 1); ZPL_MASK_SET(v, set, (u32)b); CHECK(v == (set ? w | (u32)b : w & ~(u32)b), "mask"); REACHED();
}
