// P23: memory streams against a byte-sequence file model
#include "vp.h"
#ifndef K
#define K 2
#endif
#ifndef BL
#define BL 3
#endif
#ifndef WL
#define WL 2
#endif
#define MX 48
static unsigned char m[MX]; static int n, cur, grow, wr; static zpl_file f;
static int clamp(int v) { return v < 0 ? 0 : v > n ? n : v; }
static void same(void) {
    zpl_isize sz = -1; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); CHECK(sz == n, "size"); for (int i = 0; i < n; i++) CHECK(b[i] == m[i], "contents");
    CHECK(zpl_file_tell(&f) == cur, "position"); CHECK(zpl_file_size(&f) == n, "size by seeking"); CHECK(zpl_file_tell(&f) == cur, "asking for the size does not move the position");
}
static int model_write(unsigned char const *p, int l, int at) { if (!wr) return -1; int w = 0; if (grow) { if (l) while (n < at) m[n++] = 0; for (; w < l; w++) { if (at + w == n) n++; m[at + w] = p[w]; } } else for (; w < l && at + w < n; w++) m[at + w] = p[w]; return w; }
static void run(int k) {
    for (; k > 0; k--) {
        int op = nd_pick(0, 6);
        if (op == 0) { int l = nd_pick(0, WL + 1), at = nd_pick(0, n + 2); unsigned char *p = malloc((size_t)l); zpl_isize got = -1; CHECK(zpl_file_read_at_check(&f, p, l, at, &got), "reading succeeds"); int want = at >= n ? 0 : n - at < l ? n - at : l; CHECK(got == want, "delivers what is there, never past the end"); for (int i = 0; i < want; i++) CHECK(p[i] == m[at + i], "bytes read"); free(p); }
        else if (op == 1) { int l = nd_pick(0, WL), at = nd_pick(0, n + 2); unsigned char *p = vp_bytes(l); zpl_isize put = -1; int r = zpl_file_write_at_check(&f, p, l, at, &put), w = model_write(p, l, at); if (w < 0) CHECK(!r, "read-only streams refuse writing"); else CHECK(r && put == w, "bytes written"); free(p); }
        else if (op == 2) { int l = nd_pick(0, WL); unsigned char *p = malloc((size_t)l); CHECK(zpl_file_read(&f, p, l), "reading succeeds"); int want = n - cur < l ? n - cur : l; for (int i = 0; i < want; i++) CHECK(p[i] == m[cur + i], "bytes read"); cur += want; free(p); }
        else if (op == 3) { int l = nd_pick(0, WL); unsigned char *p = vp_bytes(l); int r = zpl_file_write(&f, p, l), w = model_write(p, l, cur); CHECK(!!r == (w >= 0), "writing succeeds exactly when writable"); if (w >= 0) cur += w; free(p); if (w < 0) cur = (int)zpl_file_seek(&f, cur); }
        else if (op == 4) { int to = nd_pick(0, n + 2) - 1; cur = clamp(to); CHECK(zpl_file_seek(&f, to) == cur, "seek"); }
        else if (op == 5) { int by = nd_pick(0, 6) - 3; cur = clamp(cur + by); CHECK(zpl_file_skip(&f, by) == cur, "skip"); }
        else { cur = n; CHECK(zpl_file_seek_to_end(&f) == n, "seek to the end"); }
        same();
    }
    zpl_file_close(&f);
}
//@ x=h_new q="K=4,WL=1,T=60,J=4" t="K=5,WL=2,T=900,J=8;K=4,WL=2,T=400" what="a new growable stream: every sequence of positioned and sequential reads, writes and seeks"
void h_new(void) { vp_live = 0; n = cur = 0; grow = wr = 1; CHECK(zpl_file_stream_new(&f, vp_heap()), "created"); same(); run(K); CHECK(vp_live == 0, "every block is returned"); REACHED(); }
//@ x=h_open q="K=3,BL=2,WL=2,T=60,J=4" t="K=4,BL=3,WL=2,T=900,J=8;K=3,BL=4,WL=2,T=400" what="a stream over existing bytes: growable copy, writable in place, read only; buffers of exact size"
void h_open(void) {
    vp_live = 0; cur = 0; int mode = nd_pick(0, 2); n = nd_pick(0, BL); int n0 = n; unsigned char *p = vp_bytes(n); for (int i = 0; i < n; i++) m[i] = p[i];
    grow = mode == 0; wr = mode != 2; zpl_file_stream_flags fl = mode == 0 ? ZPL_FILE_STREAM_CLONE_WRITABLE : mode == 1 ? ZPL_FILE_STREAM_WRITABLE : (zpl_file_stream_flags)0; unsigned char first = n ? p[0] : 0;
    CHECK(zpl_file_stream_open(&f, vp_heap(), p, n, fl), "opened"); same(); run(K); if (mode == 1) for (int i = 0; i < n0; i++) CHECK(p[i] == m[i], "written through"); else if (n0) CHECK(p[0] == first, "the original is untouched");
    CHECK(vp_live == 0, "every block is returned"); free(p); REACHED();
}
//@ x=h_fail q="T=60" what="allocation failure at any point is reported, leaks nothing and keeps the contents"
void h_fail(void) {
    vp_live = 0; vp_allocs = 0; n = cur = 0; grow = wr = 1; vp_fail_at = nd_pick(0, 4); unsigned char b[4]; nd_bytes(b, 4); int how = nd_pick(0, 1);
    int ok = how ? zpl_file_stream_open(&f, vp_heap(), b, 2, ZPL_FILE_STREAM_CLONE_WRITABLE) : zpl_file_stream_new(&f, vp_heap()); if (!ok) { CHECK(vp_fail_at < 2 && vp_live == 0, "refused creation leaks nothing"); vp_fail_at = -1; REACHED(); return; }
    CHECK(vp_fail_at >= 2, "failure noticed"); if (how) model_write(b, 2, 0); unsigned char big[24]; for (int i = 0; i < 24; i++) big[i] = b[i & 3]; zpl_isize put = -1; int r = zpl_file_write_at_check(&f, big, 24, 0, &put); if (r) { CHECK(put == 24, "all written"); model_write(big, 24, 0); } same(); zpl_file_close(&f); CHECK(vp_live == 0, "every block is returned"); vp_fail_at = -1; REACHED();
}
//@ x=h_neg q="T=60" what="any 64-bit offset within a petabyte, including negative ones, on fixed streams: refused or clipped, nothing outside the buffer is touched"
void h_neg(void) {
    vp_live = 0; n = 3; cur = 0; unsigned char *p = vp_bytes(n); for (int i = 0; i < n; i++) m[i] = p[i]; zpl_i64 at = nd_i64(); ASSUME(at >= -(1ll << 50) && at <= (1ll << 50)); zpl_file_stream_open(&f, vp_heap(), p, n, ZPL_FILE_STREAM_WRITABLE); unsigned char *q = vp_bytes(2); zpl_isize c = -1; int l = nd_pick(0, 2);
    if (nd_pick(0, 1)) { int r = zpl_file_read_at_check(&f, q, l, at, &c); if (at < 0) CHECK(!r, "no bytes before the beginning"); else CHECK(r && c == (at >= n ? 0 : n - at < l ? n - at : l), "bytes read"); }
    else { int r = zpl_file_write_at_check(&f, q, l, at, &c); if (at < 0) CHECK(!r, "no bytes before the beginning"); else { int w = at >= n ? 0 : n - at < l ? (int)(n - at) : l; CHECK(r && c == w, "bytes written"); for (int i = 0; i < w; i++) m[at + i] = q[i]; } }
    same(); zpl_i64 s = zpl_file_seek(&f, at); CHECK(s == (at < 0 ? 0 : at > n ? n : at), "seek stays within the stream"); zpl_file_close(&f); free(p); free(q); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" what="streams of tens of thousands of bytes: growth keeps everything, gaps are zero, positions are exact"
void h_large(void) {
    static int const L[4] = { 255, 4097, 65535, 70000 }; vp_live = 0; int l = L[nd_pick(0, 3)], gap = nd_pick(0, 1) * 66000; unsigned char *p = (unsigned char *)malloc(l); for (int i = 0; i < l; i++) p[i] = (unsigned char)(i * 3 + 1); p[l - 1] = nd_u8(); zpl_file_stream_new(&f, vp_heap()); CHECK(zpl_file_write(&f, p, l) && zpl_file_tell(&f) == l && zpl_file_size(&f) == l, "written"); zpl_isize put = 0; CHECK(zpl_file_write_at_check(&f, p, l, l + gap, &put) && put == l && zpl_file_size(&f) == 2 * l + gap, "written behind a gap"); zpl_isize sz; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); CHECK(sz == 2 * l + gap, "size"); for (int i = 0; i < l; i++) CHECK(b[i] == p[i] && b[l + gap + i] == p[i], "contents"); for (int i = 0; i < gap; i++) CHECK(b[l + i] == 0, "gaps are zero");
    unsigned char *q = (unsigned char *)malloc(l); CHECK(zpl_file_seek(&f, l + gap) == l + gap, "seek"); CHECK(zpl_file_read(&f, q, l) && q[0] == p[0] && q[l - 1] == p[l - 1] && zpl_file_tell(&f) == 2 * l + gap, "read"); CHECK(zpl_file_skip(&f, -l) == l + gap, "skip"); zpl_file_close(&f); free(p); free(q); CHECK(vp_live == 0, "every block is returned"); REACHED();
}
