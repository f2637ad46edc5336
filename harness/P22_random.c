// P22: random numbers
#include "vp.h"
typedef unsigned int u32; typedef unsigned long long u64;
#ifdef VP_X
#define cc_(x) __vpx_concrete(x)
#else
#define cc_(x) (x)
#endif
static u64 draw_; zpl_u64 vp_u64(zpl_random *r) { (void)r; return draw_; }
//@ x=h_range q="T=60" t="T=300,WD=20" repl="zpl_random_gen_u64:vp_u64" what="ranged integer draws lie in the range for every 64-bit draw, every lower bound and widths from 1 to the whole type"
#ifndef WD
#define WD 10
#endif
void h_range(void) {
    zpl_random r; memset(&r, 0, sizeof r); draw_ = nd_u64(); zpl_i64 lo = nd_i64(), hi; int k = nd_pick(0, 9);
    u64 w = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 9 : k == 4 ? 0x7fffffffull : k == 5 ? 0xffffffffull : k == 6 ? 0x7fffffffffffffffull : k == 7 ? ~0ull : k == 8 ? ~0ull - 1 : nd_u32() & ((1u << WD) - 1); /* width - 1 */
    if (k == 7) lo = (zpl_i64)0x8000000000000000ull; if (k == 8) lo = (zpl_i64)0x8000000000000000ull + nd_pick(0, 1); hi = (zpl_i64)((u64)lo + w); ASSUME(hi >= lo);
    zpl_i64 v = zpl_random_range_i64(&r, lo, hi); CHECK(v >= lo && v <= hi, "i64 draw inside the range"); zpl_isize z = zpl_random_range_isize(&r, lo, hi); CHECK(z >= lo && z <= hi, "isize draw inside the range");
    if (k == 2) CHECK((draw_ < 3) == ((u64)v - (u64)lo == draw_) || draw_ >= 3, "small draws map to themselves"); REACHED();
}
//@ x=h_f64 q="T=60" repl="zpl_random_gen_u64:vp_u64" what="ranged floating draws lie in the range: draws with every top byte and extreme low bits, for ordinary, tiny, huge, negative and degenerate ranges"
void h_f64(void) {
    static double const L[] = { 0, -1, 0.1, -0.1, 1e300, -1e300, 5, 1e-300, 0.7, -3.3, 1e16, -2.5e-5, 0.3 }, Hh[] = { 1, 1, 0.3, 0.2, 1.0000001e300, 1e300, 5, 1e300, 2.1, 7.7, 1e16 + 2, 1.7e5, 0.9 };
    zpl_random r; memset(&r, 0, sizeof r); int k = nd_pick(0, 12); draw_ = (u64)nd_u8() << 56 | (nd_pick(0, 1) ? 0xFFFFFFFFFFFFFFull : 0); double v = zpl_random_range_f64(&r, L[k], Hh[k]); CHECK(v >= L[k] && v <= Hh[k], "draw inside the range"); double w = Hh[k] - L[k], d = v - L[k], f = (double)(draw_ >> 56) / 256, a = L[k] < 0 ? -L[k] : L[k], sl = 1e-14 * (a + w); CHECK(d >= w * f - sl && d <= w * (f + 1. / 256) + sl, "draws spread over the whole range in proportion"); REACHED();
}
/* the residue permutation of the generator, by its definition: squares modulo the prime 2^32-5, mirrored in the upper half */
static u32 d_qpr(u32 x) { u64 p = 4294967291ull; if (x >= p) return x; u64 s = (u64)x * x % p; return (u32)(x <= p / 2 ? s : p - s); }
static u32 d_step(u32 x, u32 o) { return (d_qpr(x) + o) ^ 0x5bf03635u; }
/* counter and offset windows: one arbitrary byte over bases next to every boundary of the definition */
static u32 const BASE[] = { 0, 0xFFFFFF80u, 0x7FFFFF80u, 0xFFFFFEFBu, 65500, 0x9E370000u, 92600 };
static void mk(zpl_random *r, u32 *o, int w, int which, u32 b) { for (int i = 0; i < 8; i++) o[i] = (u32)(i * 0x9E3779B1u) + 7; r->value = BASE[w]; if (which == 0) r->value += b; else if (which == 1) o[0] = BASE[w] + b; else if (which == 2) o[7] += b << 24; else o[3] ^= b << 13; for (int i = 0; i < 8; i++) r->offsets[i] = o[i]; }
//@ x=h_unique q="T=60" what="the non-repeating generator applies one bijection (the residue permutation of its eight offsets) to a counter that advances by one, in windows of states around every boundary"
void h_unique(void) {
    zpl_random r; u32 o[8], b = nd_u8(); mk(&r, o, nd_pick(0, 6), nd_pick(0, 3), b); u32 v = r.value, e = v; for (int i = 0; i < 8; i++) e = d_step(e, o[i]);
    CHECK(zpl_random_gen_u32_unique(&r) == e, "the bijection of the counter"); CHECK(r.value == v + 1, "the counter advances"); for (int i = 0; i < 8; i++) CHECK(r.offsets[i] == o[i], "the bijection does not change"); REACHED();
}
//@ x=h_inj q="T=60" t="T=300,WI=64" what="draws for different counter values are different (all pairs inside windows of counters next to every boundary)"
#ifndef WI
#define WI 12
#endif
void h_inj(void) {
    int w = nd_pick(0, 6); u32 i = nd_u8(), j = nd_u8(); ASSUME(i < WI && j < WI && i < j); i = (u32)cc_(i); zpl_random r, q; u32 o[8]; mk(&r, o, w, 0, i); mk(&q, o, w, 0, j);
    CHECK(zpl_random_gen_u32_unique(&r) != zpl_random_gen_u32_unique(&q), "no repetition"); REACHED();
}
//@ x=h_gen q="T=60" what="drawing advances the eight offsets as one long counter for every carry, and equal states give equal draws"
void h_gen(void) {
    zpl_random r, q; u32 o[8], b = nd_u8(); mk(&r, o, nd_pick(0, 6), nd_pick(0, 3), b); int full = nd_pick(0, 8); for (int i = 0; i < full; i++) o[i] = r.offsets[i] = 0xFFFFFFFFu; q = r; u32 e = r.value, c = 1; for (int i = 0; i < 8; i++) { e = d_step(e, o[i]); u32 n = o[i] + c; c = c && n == 0; o[i] = n; }
    CHECK(zpl_random_gen_u32(&r) == e, "draw from the state"); CHECK(r.value == e, "value fed back"); for (int i = 0; i < 8; i++) CHECK(r.offsets[i] == o[i], "long counter"); CHECK(zpl_random_gen_u32(&q) == e, "reproducible"); REACHED();
}
//@ x=h_wide q="T=60" what="64-bit and word-size draws are two consecutive 32-bit draws"
void h_wide(void) {
    zpl_random r, q, z; u32 o[8], y = nd_u8(); mk(&r, o, nd_pick(0, 6), nd_pick(0, 3), y); q = z = r; u64 a = zpl_random_gen_u32(&q), b = zpl_random_gen_u32(&q); u64 v = zpl_random_gen_u64(&r); CHECK(v == (a << 32 | b) || v == (b << 32 | a), "two draws"); CHECK((u64)zpl_random_gen_isize(&z) == v, "word-size draw"); REACHED();
}
static double clk_; static int reads_;
zpl_f64 vp_rel(void) { reads_++; int s = nd_pick(0, 3); clk_ += s == 0 ? 0 : s == 1 ? 1e-5 : s == 2 ? 0.4 : 3.0; return clk_; }
zpl_u64 vp_tz(void) { return 0x12345678ull << 20 | nd_u8(); } zpl_u64 vp_tsc(void) { return 0x1234567890ull; } zpl_u32 vp_tid(void) { return 77; }
//@ x=h_init q="T=60,STEPS=40000" repl="zpl_time_rel:vp_rel,zpl_time_tz_ms:vp_tz,zpl_rdtsc:vp_tsc,zpl_thread_current_id:vp_tid" what="seeding terminates for every behaviour of the clock between its readings"
void h_init(void) {
    zpl_random *r = (zpl_random *)malloc(sizeof *r); clk_ = nd_pick(0, 1) ? 0.99999 : 0; zpl_random_init(r); CHECK(r->value == 0, "counter starts at zero"); CHECK(reads_ < 64, "bounded number of clock readings"); free(r); REACHED();
}
static double clk2_; zpl_f64 vp_rel2(void) { return clk2_ += 0.07; } zpl_u64 vp_tz2(void) { return 5; }
//@ x=h_seed q="T=60" repl="zpl_time_rel:vp_rel2,zpl_time_tz_ms:vp_tz2,zpl_rdtsc:vp_tsc,zpl_thread_current_id:vp_tid" what="generators seeded one after another are different even when every clock gives the same readings"
void h_seed(void) {
    zpl_random r[3]; for (int i = 0; i < 3; i++) { clk2_ = 0; memset(r + i, nd_pick(0, 1) ? 0x55 : 0, sizeof *r); zpl_random_init(r + i); CHECK(r[i].value == 0, "counter starts at zero"); } for (int i = 1; i < 3; i++) for (int j = 0; j < i; j++) { int same = 1; for (int k = 0; k < 8; k++) same &= r[i].offsets[k] == r[j].offsets[k]; CHECK(!same, "different generators"); int eq = 1; zpl_random a = r[i], b = r[j]; for (int k = 0; k < 4; k++) eq &= zpl_random_gen_u32(&a) == zpl_random_gen_u32(&b); CHECK(!eq, "different draws"); } REACHED();
}
//@ x=h_huge q="T=60" repl="zpl_random_gen_u64:vp_u64" what="ranged floating draws from ranges wider than the largest number"
void h_huge(void) { static double const L[] = { -1.5e308, -1.7e308, -1.7976931348623157e308 }, Hh[] = { 1.5e308, 1e300, 1.7976931348623157e308 }; zpl_random r; memset(&r, 0, sizeof r); int k = nd_pick(0, 2); draw_ = (u64)nd_u8() << 56 | (nd_pick(0, 1) ? 0xFFFFFFFFFFFFFFull : 0); double v = zpl_random_range_f64(&r, L[k], Hh[k]); CHECK(v >= L[k] && v <= Hh[k], "draw inside the range"); if (k != 1) CHECK((draw_ >> 63) ? v >= 0 : v <= 0, "spread over the whole range"); REACHED(); }
