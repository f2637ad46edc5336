// P20: Base64
#include "vp.h"
typedef unsigned char u8;
static u8 dig(unsigned v) { return (u8)(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'); }
static int val(u8 c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
//@ x=h_encode q="N=7,T=60" t="N=13,T=300" what="encoding of every byte string up to N is the standard text in a block of exactly its size"
#ifndef N
#define N 7
#endif
void h_encode(void) {
    vp_live = 0; int n = nd_pick(1, N); u8 *p = vp_bytes(n), *r = zpl_base64_encode(vp_heap(), p, n); int m = (n + 2) / 3 * 4; CHECK(r != NULL && r[m] == 0, "terminated after the standard length");
    for (int j = 0; j < m; j++) { int bit = 6 * j; unsigned v = 0; for (int b = 0; b < 6; b++) { int q = bit + b; unsigned x = q / 8 < n ? (p[q / 8] >> (7 - q % 8)) & 1u : 0; v = v << 1 | x; } CHECK(r[j] == (bit >= 8 * n ? '=' : dig(v)), "standard digit"); }
    zpl_free(vp_heap(), r); free(p); CHECK(vp_live == 0, "one block"); REACHED();
}
//@ x=h_round q="NR=4,T=60" t="NR=12,T=300" what="decoding an encoded string restores its bytes and terminates them"
#ifndef NR
#define NR 6
#endif
void h_round(void) {
    vp_live = 0; int n = nd_pick(1, NR); u8 *p = vp_bytes(n), *e = zpl_base64_encode(vp_heap(), p, n); int m = (n + 2) / 3 * 4; u8 *d = zpl_base64_decode(vp_heap(), e, m); CHECK(d != NULL, "accepted"); for (int i = 0; i < n; i++) CHECK(d[i] == p[i], "restored byte"); CHECK(d[n] == 0, "terminated");
    zpl_free(vp_heap(), d); zpl_free(vp_heap(), e); free(p); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_decode q="M=5,T=60" t="M=8,T=600,J=8;M=6,T=300" what="every text up to M (any bytes, not necessarily terminated): decoded exactly when well formed, rejected otherwise without a leak, all accesses inside the text"
#ifndef M
#define M 5
#endif
void h_decode(void) {
    vp_live = 0; int n = nd_pick(0, M); u8 *t = vp_bytes(n); int ok = n % 4 == 0, pad = 0; for (int i = 0; i < n; i++) { if (t[i] == '=') { pad++; if (i < n - 2) ok = 0; } else { if (val(t[i]) < 0) ok = 0; if (pad) ok = 0; } }
    u8 *d = zpl_base64_decode(vp_heap(), t, n);
    if (!ok) { CHECK(d == NULL, "malformed text is rejected"); CHECK(vp_live == 0, "no leak on rejection"); }
    else { CHECK(d != NULL, "well-formed text is accepted"); int m = n / 4 * 3 - pad; for (int i = 0; i < m; i++) { unsigned v = 0; for (int b = 0; b < 8; b++) { int q = 8 * i + b; v = v << 1 | ((unsigned)val(t[q / 6]) >> (5 - q % 6) & 1u); } CHECK(d[i] == v, "decoded byte"); } CHECK(d[m] == 0, "terminated"); zpl_free(vp_heap(), d); CHECK(vp_live == 0, "one block"); }
    free(t); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" what="long inputs: standard length, digits at both ends, and round trip"
void h_large(void) {
    static int const L[5] = { 254, 255, 3001, 65535, 70001 }; vp_live = 0; int n = L[nd_pick(0, 4)], m = (n + 2) / 3 * 4; u8 *p = (u8 *)malloc(n); for (int i = 0; i < n; i++) p[i] = (u8)(i * 7); p[n - 1] = nd_u8(); p[0] = nd_u8(); u8 *e = zpl_base64_encode(vp_heap(), p, n); CHECK(e && e[m] == 0 && e[0] == dig(p[0] >> 2), "standard length and digit"); CHECK(n % 3 ? e[m - 1] == '=' : e[m - 1] == dig(p[n - 1] & 63u), "last digit"); u8 *d = zpl_base64_decode(vp_heap(), e, m); CHECK(d != 0, "accepted"); for (int i = 0; i < n; i++) CHECK(d[i] == p[i], "restored"); CHECK(d[n] == 0, "terminated"); zpl_free(vp_heap(), d); zpl_free(vp_heap(), e); free(p); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_nomem q="T=60" what="encoding reports refused memory"
void h_nomem(void) { vp_live = 0; vp_allocs = 0; vp_fail_at = 0; int n = nd_pick(1, 5); u8 *t = vp_bytes(n); u8 *e = zpl_base64_encode(vp_heap(), t, n); vp_fail_at = -1; CHECK(!e && vp_live == 0, "reported"); free(t); REACHED(); }
