// P28: clock readings, units, epochs and sleep requests, against modelled clock_gettime / nanosleep / localtime_r / mktime
#define _GNU_SOURCE 1
#include <time.h>
#include <errno.h>
static struct timespec rd[3][4]; static int at[3], bad, slept; static struct timespec req_got;
int clock_gettime(clockid_t c, struct timespec *t) { int k = c == CLOCK_REALTIME ? 0 : c == CLOCK_MONOTONIC ? 1 : 2; if (k == 2 || at[k] > 3) { bad++; k = 0; } *t = rd[k][at[k] & 3]; at[k]++; return 0; }
int nanosleep(const struct timespec *q, struct timespec *r) { slept++; req_got = *q; if (r) r->tv_sec = r->tv_nsec = 0; return 0; }
static long off; static int dst; static time_t lt_in; static int lt_n;
long timezone;
void tzset(void) { timezone = -off; }
/* the broken-down time carries the clock value itself; mktime inverts it */
struct tm *localtime_r(const time_t *t, struct tm *r) { static struct tm z; *r = z; lt_in = *t; lt_n++; r->tm_isdst = dst; timezone = -off; return r; }
time_t mktime(struct tm *t) { (void)t; return lt_in; }
#include "vp.h"
static zpl_u64 exact(struct timespec t) { return (zpl_u64)t.tv_sec * 1000u + (zpl_u64)t.tv_nsec / 1000000u; }
static struct timespec reading(long smax) { struct timespec t; t.tv_sec = (long)nd_u32(); ASSUME(t.tv_sec <= smax); t.tv_nsec = (long)nd_u32(); ASSUME(t.tv_nsec < 1000000000); return t; }
/* |a - b| <= d, without wrap-around */
static int within(zpl_u64 a, zpl_u64 b, zpl_u64 d) { return a <= b + d && b <= a + d; }
/* m milliseconds lie within e nanoseconds of d nanoseconds */
static int is_ms(zpl_u64 m, zpl_u64 d, zpl_u64 e) { return m <= (d + e) / 1000000u && (d + 1000000000u - e + 999999u) / 1000000u <= m + 1000u; }
static zpl_u64 ns(struct timespec t) { return (zpl_u64)t.tv_sec * 1000000000u + (zpl_u64)t.tv_nsec; }
//@ x=h_rel q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="three clock readings: the relative time equals the difference to the first reading within a millisecond and never runs backwards"
#ifndef SMAX
#define SMAX 2147483647
#endif
void h_rel(void) {
    rd[1][0] = reading(SMAX); rd[1][1] = rd[1][0]; ASSUME(rd[1][0].tv_sec >= 1); rd[1][2] = reading(SMAX); ASSUME(rd[1][2].tv_sec > rd[1][0].tv_sec || (rd[1][2].tv_sec == rd[1][0].tv_sec && rd[1][2].tv_nsec >= rd[1][0].tv_nsec)); rd[1][3] = rd[1][2];
    CHECK(zpl_time_rel_ms() == 0, "starts at zero"); zpl_u64 b = zpl_time_rel_ms(); CHECK(is_ms(b, ns(rd[1][2]) - ns(rd[1][0]), 1001000u), "elapsed milliseconds"); CHECK(!bad, "the monotonic clock"); REACHED();
}
//@ x=h_mono q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="a later reading never gives an earlier time, on both clocks"
void h_mono(void) {
    int k = nd_bool(); rd[k][0] = reading(SMAX); rd[k][1] = reading(SMAX); ASSUME(rd[k][1].tv_sec > rd[k][0].tv_sec || (rd[k][1].tv_sec == rd[k][0].tv_sec && rd[k][1].tv_nsec >= rd[k][0].tv_nsec));
    zpl_u64 a = k ? zpl__unix_gettime() : zpl_time_utc_ms(), b = k ? zpl__unix_gettime() : zpl_time_utc_ms(); CHECK(a <= b, "time does not run backwards"); CHECK(!bad && at[k] == 2, "one reading each"); REACHED();
}
//@ x=h_utc q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="absolute time is the realtime clock in milliseconds since 1601"
void h_utc(void) { rd[0][0] = reading(0x7fffffff); zpl_u64 a = zpl_time_utc_ms(); CHECK(a >= 11644473600000ull && is_ms(a - 11644473600000ull, ns(rd[0][0]), 1003000u), "milliseconds since 1601"); CHECK(!bad && at[0] == 1, "the realtime clock"); REACHED(); }
//@ x=h_epoch q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="epoch conversions are inverse shifts by the distance of the epochs"
void h_epoch(void) { zpl_u64 v = nd_u64(); CHECK(zpl_time_unix_to_win32(v) - v == 11644473600000ull, "to 1601"); CHECK(zpl_time_win32_to_unix(zpl_time_unix_to_win32(v)) == v && zpl_time_unix_to_win32(zpl_time_win32_to_unix(v)) == v, "inverse"); REACHED(); }
//@ x=h_sleep q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="sleeping requests exactly the asked milliseconds, for every 32-bit duration"
void h_sleep(void) { zpl_u32 ms = nd_u32(); zpl_sleep_ms(ms); CHECK(slept == 1, "one request"); CHECK(req_got.tv_sec == (long)(ms / 1000) && req_got.tv_nsec == (long)(ms % 1000) * 1000000, "the asked duration"); REACHED(); }
//@ x=h_tz repl="zpl_time_utc_ms:vp_utc" q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="local time is absolute time plus the zone offset, and an hour in summer time; seconds agree with milliseconds"
static const long zones[] = {-43200, -34200, -18000, 0, 3600, 20700, 50400};
static zpl_u64 tz_s, tz_ms; zpl_u64 vp_utc(void) { return tz_s * 1000u + tz_ms + 11644473600000ull; }
void h_tz(void) {
    tz_s = nd_u32(); ASSUME(tz_s < 0x80000000u && tz_s >= 86400); tz_ms = nd_u16(); ASSUME(tz_ms < 1000); off = zones[nd_pick(0, 6)]; dst = nd_pick(0, 1); zpl_u64 a = zpl_time_tz_ms(); CHECK(lt_n == 1 && (zpl_u64)lt_in == tz_s, "the zone is asked for that second"); CHECK(a == tz_s * 1000u + tz_ms + 11644473600000ull + (zpl_u64)((off + dst * 3600) * 1000), "local milliseconds since 1601"); REACHED();
}
//@ x=h_sec q="T=60,J=2" t="T=300,J=4" opts="-real 1" what="readings in seconds are the millisecond readings scaled, within a microsecond"
void h_sec(void) {
    struct timespec r = reading(0x7fffffff); for (int i = 0; i < 4; i++) rd[0][i] = r; zpl_u64 m = zpl_time_utc_ms(); double s = zpl_time_utc(); double d = s * 1000.0 - (double)m; CHECK(d > -0.01 && d < 0.01, "seconds"); REACHED();
}
//@ x=h_secs repl="zpl_time_rel:vp_now,zpl_time_utc:vp_now2" q="T=60,J=2" t="T=300,J=4" what="sleeping for a number of seconds requests that many milliseconds; the old names of the clock readings give the same readings"
static int asked_; zpl_f64 vp_now(void) { asked_ |= 1; return 12.5; } zpl_f64 vp_now2(void) { asked_ |= 2; return 99.25; }
void h_secs(void) { static float const S[] = { 0, 0.25f, 1, 1.5f, 2.125f, 3600 }; float s = S[nd_pick(0, 5)]; zpl_sleep(s); CHECK(slept == 1 && (double)req_got.tv_sec + req_got.tv_nsec * 1e-9 == (double)s, "the asked duration"); CHECK(zpl_time_now() == 12.5 && asked_ == 1, "relative"); CHECK(zpl_utc_time_now() == 99.25 && asked_ == 3, "absolute"); REACHED(); }
//@ x=h_units repl="zpl_time_rel_ms:vp_rel,zpl_time_tz_ms:vp_loc,zpl_time_utc_ms:vp_abs" q="T=60,J=2" t="T=300,J=4" what="each reading in seconds is its own millisecond reading scaled: relative, local and absolute"
static zpl_u64 m_r, m_l, m_a; zpl_u64 vp_rel(void) { return m_r; } zpl_u64 vp_loc(void) { return m_l; } zpl_u64 vp_abs(void) { return m_a; }
static int secs(double s, zpl_u64 m) { double d = s * 1000.0 - (double)m; return d > -0.01 && d < 0.01; }
void h_units(void) {
    static zpl_u64 const W[] = { 0, 1, 999, 1500, 86399999, 4294967296001ull, 13344473600123ull, 13379999999999ull }; int i = nd_pick(0, 7); m_r = W[i]; m_l = W[(i + 1) & 7]; m_a = W[(i + 2) & 7];
    CHECK(secs(zpl_time_rel(), m_r), "relative seconds"); CHECK(secs(zpl_time_tz(), m_l), "local seconds"); CHECK(secs(zpl_time_utc(), m_a), "absolute seconds"); REACHED();
}
