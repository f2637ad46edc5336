// P17: string objects against a byte-sequence model
#include "vp.h"
#ifndef K
#define K 3
#endif
#define MX 64
static char m[MX]; static int n;
static void same(zpl_string s) {
    CHECK(s != NULL && zpl_string_length(s) == n, "length equals the contents"); CHECK(zpl_string_capacity(s) >= n, "capacity covers the length"); CHECK(s[n] == 0, "terminated");
    for (int i = 0; i < n; i++) CHECK(s[i] == m[i], "contents"); CHECK(zpl_string_available_space(s) == zpl_string_capacity(s) - n, "available space");
}
static void put(char const *t, int l) { for (int i = 0; i < l; i++) m[n++] = t[i]; }
static int in(char c, char const *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
//@ x=h_ops q="K=2,L=3,T=60" t="K=4,L=2,T=900,J=8;K=3,L=3,T=400" what="any sequence of append, set, trim, clear, reserve, rune and formatted appends equals the model; exact-size blocks; no leak"
#ifndef L
#define L 3
#endif
void h_ops(void) {
    vp_live = 0; n = 0; zpl_string s; int how = nd_pick(0, 3); char *t0 = vp_str(L); int l0 = rlen(t0);
    if (how == 0) { s = zpl_string_make(vp_heap(), t0); put(t0, l0); } else if (how == 1) { s = zpl_string_make_length(vp_heap(), t0, l0); put(t0, l0); CHECK(zpl_string_capacity(s) == l0, "capacity"); } else if (how == 2) { s = zpl_string_make_reserve(vp_heap(), l0); CHECK(zpl_string_capacity(s) == l0, "reserved"); } else s = zpl_string_make(vp_heap(), NULL);
    free(t0); same(s);
    for (int k = 0; k < K; k++) {
        int op = nd_pick(0, 9);
        if (op == 0) { char *t = vp_str(L); s = zpl_string_appendc(s, t); put(t, rlen(t)); free(t); }
        else if (op == 1) { int l = nd_pick(0, L); char *t = (char *)vp_bytes(l); for (int i = 0; i < l; i++) ASSUME(t[i]); s = zpl_string_append_length(s, t, l); put(t, l); free(t); }
        else if (op == 2) { char *t = vp_str(L + 1); s = zpl_string_set(s, t); n = 0; put(t, rlen(t)); free(t); }
        else if (op == 3) { char set[2]; set[0] = nd_char(); ASSUME(set[0]); set[1] = 0; s = zpl_string_trim(s, set); int b = 0, e = n; while (b < e && in(m[b], set)) b++; while (e > b && in(m[e - 1], set)) e--; for (int i = b; i < e; i++) m[i - b] = m[i]; n = e - b; }
        else if (op == 4) { s = zpl_string_trim_space(s); int b = 0, e = n; while (b < e && in(m[b], " \t\r\n\v\f")) b++; while (e > b && in(m[e - 1], " \t\r\n\v\f")) e--; for (int i = b; i < e; i++) m[i - b] = m[i]; n = e - b; }
        else if (op == 5) { zpl_string_clear(s); n = 0; }
        else if (op == 6) { int w = nd_pick(0, 4); zpl_isize c = zpl_string_capacity(s); s = zpl_string_make_space_for(s, w); CHECK(zpl_string_capacity(s) - n >= w && zpl_string_capacity(s) >= c, "room for the announced bytes"); }
        else if (op == 7) { unsigned r = nd_u32(); ASSUME((r || k == K - 1) && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF)); int o = n; s = zpl_string_append_rune(s, (zpl_rune)r); int w = r < 0x80 ? 1 : r < 0x800 ? 2 : r < 0x10000 ? 3 : 4; CHECK(zpl_string_length(s) == o + w, "rune length"); zpl_rune d; CHECK(zpl_utf8_decode((zpl_u8 *)s + o, w, &d) == w && (unsigned)d == r, "rune"); put(s + o, w); }
        else if (op == 8) { zpl_string u = zpl_string_duplicate(vp_heap(), s); same(u); CHECK(zpl_string_are_equal(s, u), "a duplicate is equal"); if (nd_pick(0, 1)) { s = zpl_string_append(s, u); int o = n; for (int i = 0; i < o; i++) m[n++] = m[i]; if (o) CHECK(!zpl_string_are_equal(s, u), "different lengths differ"); } else if (n) { u[0] = (char)(u[0] ^ 1); CHECK(!zpl_string_are_equal(s, u), "different contents differ"); } zpl_string_free(u); }
        else { char const *parts[3]; char *t = vp_str(1), *g = vp_str(1); parts[0] = s; parts[1] = t; parts[2] = t; int c = nd_pick(0, 3); zpl_string j = zpl_string_join(vp_heap(), parts, c, g); int o = n; n = 0; char save[MX]; for (int i = 0; i < o; i++) save[i] = m[i]; for (int p = 0; p < c; p++) { if (p == 0) put(save, o); else put(t, rlen(t)); if (p + 1 < c) put(g, rlen(g)); } same(j); zpl_string_free(s); s = j; free(t); free(g); }
        same(s);
    }
    zpl_string_free(s); CHECK(vp_live == 0, "every block is returned"); REACHED();
}
//@ x=h_eq q="T=60" t="NE=5,T=200" what="equality of all string pairs"
#ifndef NE
#define NE 4
#endif
void h_eq(void) { char *a = vp_str(NE), *b = vp_str(NE); zpl_string x = zpl_string_make(vp_heap(), a), y = zpl_string_make(vp_heap(), b); int e = rlen(a) == rlen(b); for (int i = 0; e && a[i]; i++) if (a[i] != b[i]) e = 0; CHECK(!!zpl_string_are_equal(x, y) == e, "equal exactly when same bytes"); zpl_string_free(x); zpl_string_free(y); free(a); free(b); REACHED(); }
//@ x=h_fmt q="T=60" what="formatted construction and append"
void h_fmt(void) {
    vp_live = 0; n = 0; int v = nd_pick(0, 200) - 100; char *t = vp_str(2); for (int i = 0; t[i]; i++) ASSUME(t[i] != '%'); zpl_string s = zpl_string_make(vp_heap(), t); put(t, rlen(t));
    s = zpl_string_append_fmt(s, "%s=%d;", t, v); put(t, rlen(t)); m[n++] = '='; if (v < 0) m[n++] = '-'; int a = v < 0 ? -v : v; if (a >= 100) m[n++] = '1'; if (a >= 10) m[n++] = (char)('0' + a / 10 % 10); m[n++] = (char)('0' + a % 10); m[n++] = ';'; same(s);
    char b[8]; int o = n; zpl_string u = zpl_string_sprintf(vp_heap(), b, 8, "%s", t); n = 0; put(t, rlen(t)); same(u); zpl_string w = zpl_string_sprintf_buf(vp_heap(), "%s", t); same(w); (void)o; zpl_string_free(u); zpl_string_free(w); zpl_string_free(s); CHECK(vp_live == 0, "no leak"); free(t); REACHED();
}
//@ x=h_fail q="T=60" what="allocation failure yields NULL and never a half-built string"
void h_fail(void) { vp_live = 0; vp_fail_at = -1; vp_allocs = 0; char *t = vp_str(2); vp_fail_at = 0; CHECK(!zpl_string_make(vp_heap(), t) && !zpl_string_make_reserve(vp_heap(), 4), "failed creation"); vp_fail_at = -1; zpl_string s = zpl_string_make(vp_heap(), t); vp_fail_at = 0; vp_allocs = 0; CHECK(!zpl_string_append_length(s, "abc", 3), "failed growth is reported"); vp_fail_at = -1; for (int i = 0; i <= rlen(t); i++) CHECK(s[i] == t[i], "untouched"); zpl_string_free(s); CHECK(vp_live == 0, "no leak"); free(t); REACHED(); }
//@ x=h_large q="T=60" what="strings of hundreds to tens of thousands of characters: appending, copying, comparing, formatting and trimming keep everything"
void h_large(void) {
    static int const LL[4] = { 254, 256, 4096, 65536 }; vp_live = 0; int l = LL[nd_pick(0, 3)]; char *t = (char *)malloc(l + 1); for (int i = 0; i < l; i++) t[i] = (char)('a' + i % 26); t[l] = 0; char u = nd_char(), v = nd_char(); ASSUME(u && v); char b[3] = { u, v, 0 };
    zpl_string s = zpl_string_make_length(vp_heap(), t, l); CHECK(s && zpl_string_length(s) == l && s[l - 1] == t[l - 1] && s[l] == 0, "made"); s = zpl_string_appendc(s, b); CHECK(s && zpl_string_length(s) == l + 2 && s[l - 1] == t[l - 1] && s[l] == u && s[l + 1] == v && s[l + 2] == 0, "appended"); CHECK(zpl_string_capacity(s) >= l + 2, "capacity");
    zpl_string d = zpl_string_duplicate(vp_heap(), s); CHECK(zpl_string_are_equal(s, d), "equal copies"); d[l + 1] = (char)(v + 1); if (d[l + 1]) CHECK(!zpl_string_are_equal(s, d), "the last character counts"); s = zpl_string_append(s, d); CHECK(zpl_string_length(s) == 2 * l + 4 && s[2 * l + 2] == u && s[2 * l + 3] == (char)(v + 1), "strings appended"); zpl_string_clear(d); CHECK(zpl_string_length(d) == 0 && d[0] == 0, "cleared"); d = zpl_string_set(d, t); CHECK(zpl_string_length(d) == l && d[l - 1] == t[l - 1] && d[l] == 0, "set"); if (l < 60000) { d = zpl_string_append_fmt(d, "%s", t); CHECK(zpl_string_length(d) == 2 * l && d[l] == 'a' && d[2 * l - 1] == t[l - 1] && d[2 * l] == 0, "formatted"); } zpl_string_free(s); zpl_string_free(d); CHECK(vp_live == 0, "no leak"); free(t); REACHED();
}
//@ x=h_long q="T=60,STEPS=30000000" what="formatted construction of texts around the formatting limit: the whole text up to the limit, terminated, length and capacity exact"
void h_long(void) {
    static int const LL[6] = { 100, 4095, 4097, ZPL_PRINTF_MAXLEN - 2, ZPL_PRINTF_MAXLEN - 1, ZPL_PRINTF_MAXLEN + 3 }; vp_live = 0; int l = LL[nd_pick(0, 5)]; char *t = (char *)malloc(l + 1); for (int i = 0; i < l; i++) t[i] = (char)('a' + i % 26); t[l] = 0; char u = nd_char(); ASSUME(u); t[l / 2] = u; int w = l < ZPL_PRINTF_MAXLEN ? l : ZPL_PRINTF_MAXLEN - 1;
    zpl_string s = zpl_string_sprintf_buf(vp_heap(), "%s", t); CHECK(s && zpl_string_length(s) == w && zpl_string_capacity(s) >= w && s[w] == 0, "length"); CHECK(s[0] == 'a' && s[l / 2] == u && s[w - 1] == t[w - 1], "contents"); zpl_string_free(s);
    static char buf[ZPL_PRINTF_MAXLEN + 16]; int n = w < 200 ? 64 : 4097; for (int i = n; i < n + 16; i++) buf[i] = 'Z'; s = zpl_string_sprintf(vp_heap(), buf, n, "%s", t); int m = l < n ? l : n - 1; CHECK(s && zpl_string_length(s) == m && s[m] == 0 && buf[n] == 'Z' && s[m - 1] == t[m - 1], "bounded by the buffer"); CHECK(zpl_string_allocation_size(s) == (zpl_isize)sizeof(zpl_string_header) + zpl_string_capacity(s), "allocation size"); zpl_string_clear(s); CHECK(zpl_string_capacity(s) >= m && zpl_string_allocation_size(s) == (zpl_isize)sizeof(zpl_string_header) + zpl_string_capacity(s) && zpl_string_available_space(s) == zpl_string_capacity(s), "allocation size of a cleared string"); zpl_string_free(s); CHECK(vp_live == 0, "no leak"); free(t); REACHED();
}
//@ x=h_join_fail q="T=60" what="joining with the k-th allocation refused: the whole text or nothing at all, nothing leaked"
void h_join_fail(void) {
    vp_live = 0; char *a = vp_str(1), *b = vp_str(1); char const *p[3] = { a, "0123456789012345678901234567890123456789", b }; vp_allocs = 0; vp_fail_at = nd_pick(0, 4); zpl_string s = zpl_string_join(vp_heap(), p, 3, "--"); vp_fail_at = -1;
    if (s) { n = 0; put(a, rlen(a)); put("--", 2); put(p[1], 40); put("--", 2); put(b, rlen(b)); same(s); zpl_string_free(s); } CHECK(vp_live == 0, "no leak"); free(a); free(b); REACHED();
}
