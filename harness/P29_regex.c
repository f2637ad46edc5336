// P29: regular expressions
#include "vp.h"
typedef unsigned char u8;
#ifdef VP_X
#define cc_(x) __vpx_concrete(x)
#else
#define cc_(x) (x)
#endif
#ifndef K
#define K 4
#endif
#ifndef TX
#define TX 3
#endif
#define MP 600
/* reference: a backtracking matcher over the pattern text (alternatives in order, greedy and shortest repetitions, leftmost match) */
static u8 const *P_; static int n_; static u8 const *S_; static int m_;
static int hexv(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int esc_len(int p) { return p + 2 < n_ && hexv(P_[p + 1]) >= 0 && hexv(P_[p + 2]) >= 0 ? 3 : p + 1 < n_ ? 2 : 1; } /* P_[p] is a backslash */
static int isw(u8 c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_'; }
static int is_ws(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }
static int esc_is(int p, u8 c) {
    if (esc_len(p) == 3) return c == (hexv(P_[p + 1]) << 4 | hexv(P_[p + 2]));
    switch (P_[p + 1]) {
    case 't': return c == 9; case 'n': return c == 10; case 'r': return c == 13; case 'f': return c == 12; case 'v': return c == 11; case '0': return c == 0;
    case 's': return is_ws(c); case 'S': return !is_ws(c); case 'd': return c >= '0' && c <= '9'; case 'D': return !(c >= '0' && c <= '9');
    case 'a': return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); case 'l': return c >= 'a' && c <= 'z'; case 'u': return c >= 'A' && c <= 'Z';
    case 'w': return isw(c); case 'W': return !isw(c); case 'x': return hexv(c) >= 0; case 'p': return c >= 32 && c <= 126; }
    return c == P_[p + 1];
}
static int item_end(int p) { /* end of the one-character item or of the set at p; -1 for an unclosed set */
    if (P_[p] == '\\') return p + esc_len(p);
    if (P_[p] != '[') return p + 1;
    for (p++, p += p < n_ && P_[p] == '^'; p < n_ && P_[p] != ']';) p += P_[p] == '\\' ? esc_len(p) : 1;
    return p < n_ ? p + 1 : -1;
}
static int single(u8 c) { return c != '^' && c != '$' && c != '(' && c != ')' && c != '|'; }
static int quant(u8 c) { return c == '*' || c == '+' || c == '?'; }
static int ok_pattern(void) {
    int depth = 0, content[16]; content[0] = 0; /* has anything been parsed since the group began */
    for (int p = 0; p < n_;) {
        u8 c = P_[p]; if (quant(c)) return 0;
        if (c == '(') { content[depth]++; if (++depth == 16) return 0; content[depth] = 0; p++; continue; }
        if (c == ')') { if (!depth) return 0; depth--; p++; continue; }
        if (c == '|') { if (!content[depth]) return 0; p++; continue; }
        content[depth]++;
        if (!single(c)) { p++; continue; }
        int q = item_end(p); if (q < 0) return 0; p = q;
        if (p < n_ && quant(P_[p])) { u8 k = P_[p++]; if (k != '?' && p < n_ && P_[p] == '?') p++; }
    }
    return depth == 0;
}
static int lone_backslash(void) { int p = 0; while (p < n_) { if (P_[p] == '\\') { if (p + 1 == n_) return 1; p += esc_len(p); } else if (P_[p] == '[') { int q = item_end(p); if (q < 0) return 0; p = q; } else p++; } return 0; }
static int is_item(int p, u8 c) {
    if (P_[p] == '.') return 1;
    if (P_[p] == '\\') return esc_is(p, c);
    if (P_[p] != '[') return P_[p] == c;
    int neg = P_[++p] == '^', in = 0; if (neg) p++;
    while (P_[p] != ']') { if (P_[p] == '\\') { in |= esc_is(p, c); p += esc_len(p); } else in |= P_[p++] == c; }
    return in != neg;
}
static int gs_[16], ge_[16];
static int close_of(int p) { int d = 0; while (p < n_) { if (P_[p] == '(') d++; else if (P_[p] == ')' && d-- == 0) return p; p = P_[p] == '[' || P_[p] == '\\' ? item_end(p) : p + 1; } return n_; }
static int next_alt(int p) { int d = 0; while (p < n_) { if (P_[p] == '(') d++; else if (P_[p] == ')') { if (d-- == 0) return -1; } else if (P_[p] == '|' && d == 0) return p + 1; p = P_[p] == '[' || P_[p] == '\\' ? item_end(p) : p + 1; } return -1; }
static int group_no(int p) { int g = 0; for (int i = 0; i < p;) { if (P_[i] == '(') g++; i = P_[i] == '[' || P_[i] == '\\' ? item_end(i) : i + 1; } return g; }
static int open_of(int p) { int st[16], d = 0; for (int i = 0; i < p;) { if (P_[i] == '(') st[d++] = i; else if (P_[i] == ')') d--; i = P_[i] == '[' || P_[i] == '\\' ? item_end(i) : i + 1; } return st[d - 1]; }
static int m(int p, int t);
static int alts(int p, int t) { for (; p >= 0; p = next_alt(p)) { int r = m(p, t); if (r >= 0) return r; } return -1; }
static int m(int p, int t) {
    if (p == n_) return t;
    u8 c = P_[p]; int r;
    if (c == '|') return m(close_of(p + 1), t);
    if (c == ')') { r = m(p + 1, t); if (r >= 0) ge_[group_no(open_of(p))] = t; return r; }
    if (c == '(') { r = alts(p + 1, t); if (r >= 0) gs_[group_no(p)] = t; return r; }
    if (c == '^') return t == 0 ? m(p + 1, t) : -1;
    if (c == '$') return t == m_ ? m(p + 1, t) : -1;
    int q = item_end(p), lo = 1, hi = 1, lazy = 0, k = 0;
    if (q < n_ && quant(P_[q])) { lo = P_[q] == '+'; hi = P_[q] == '?' ? 1 : m_; q++; if (P_[q - 1] != '?' && q < n_ && P_[q] == '?') q++, lazy = 1; }
    if (lazy) { for (k = 0;; k++) { if (k >= lo) { r = m(q, t + k); if (r >= 0) return r; } if (t + k >= m_ || !is_item(p, S_[t + k])) return -1; } }
    while (k < hi && t + k < m_ && is_item(p, S_[t + k])) k++;
    for (; k >= lo; k--) { r = m(q, t + k); if (r >= 0) return r; }
    return -1;
}
static int matches(int *end) { for (int i = 0; i <= m_; i++) { for (int g = 0; g < 16; g++) gs_[g] = ge_[g] = -1; int r = alts(0, i); if (r >= 0) { *end = r; return 1; } } return 0; }

/* compile the pattern, and if it is well formed compare the match with the reference */
static void compare(u8 const *pat, int n, u8 const *txt, int tl) {
    P_ = pat; n_ = n; S_ = txt; m_ = tl; zpl_re re; vp_fail_at = -1; int l0 = vp_live;
    zpl_regex_error err = zpl_re_compile(&re, vp_heap(), (char const *)pat, n); int ok = ok_pattern();
    CHECK((err == ZPL_RE_ERROR_NONE) == ok, "exactly the malformed patterns are rejected");
    if (err) { CHECK(vp_live == l0, "a rejected pattern keeps no memory"); REACHED(); return; }
    zpl_re_capture cap[4]; memset(cap, 0, sizeof cap); zpl_isize off = -1; int end = -1, want = matches(&end);
    int got = zpl_re_match(&re, (char const *)txt, tl, cap, 4, &off);
    CHECK(!!got == want, "the text matches exactly when the language of the pattern says so");
    if (got) { CHECK(off == end, "the match ends where the first alternative in priority order ends"); CHECK(zpl_re_capture_count(&re) == group_no(n), "number of groups");
        for (int g = 0; g < 4; g++) { if (cap[g].str) CHECK(cap[g].str >= (char const *)txt && cap[g].len >= 0 && cap[g].str + cap[g].len <= (char const *)txt + tl, "captures inside the text");
            if (gs_[g] >= 0 && ge_[g] >= 0) CHECK(cap[g].str == (char const *)txt + gs_[g] && cap[g].len == ge_[g] - gs_[g], "what the group matched"); } }
    zpl_re_destroy(&re); CHECK(vp_live == l0, "destroy gives the memory back"); REACHED();
}
static int nd_text(u8 **t) { int l = nd_pick(0, TX); *t = (u8 *)malloc(l ? l : 1); for (int i = 0; i < l; i++) (*t)[i] = nd_u8(); return l; }
static char const AB[] = "ab.*+?|()[]^$\\d";
//@ x=h_ref q="K=4,TX=3,T=120;K=3,T=60" t="K=5,TX=4,T=800,J=8" what="every pattern up to K characters over a b . * + ? | ( ) [ ] ^ $ \\ d against every text up to TX bytes, by a backtracking reference: rejection, match, end of the match, captures, memory"
void h_ref(void) { u8 *p, *t; int n = nd_pick(0, K); p = (u8 *)malloc(n ? n : 1); for (int i = 0; i < n; i++) p[i] = AB[nd_pick(0, 14)]; P_ = p; n_ = n; ASSUME(!lone_backslash()); int tl = nd_text(&t); compare(p, n, t, tl); free(p); free(t); }
static char const *const TOK[] = { "a", "b", ".", "(", ")", "|", "a*", "b*?", ".+", "[ab]+", ".?", "$", "^", "a+?", "[^a]", "ab?", ".*" };
#ifndef TN
#define TN 13
#endif
//@ x=h_tok q="KT=4,TX=3,T=120;KT=3,T=60" t="KT=4,TX=4,TN=17,T=800" what="every sequence of up to KT tokens (letters, dot, groups, alternatives, greedy and shortest repetitions, options, sets, anchors) against every text up to TX bytes"
#ifndef KT
#define KT 3
#endif
void h_tok(void) { u8 *p = (u8 *)malloc(5 * KT + 1), *t; int n = 0, k = nd_pick(0, KT); for (int i = 0; i < k; i++) for (char const *s = TOK[nd_pick(0, TN - 1)]; *s; s++) p[n++] = (u8)*s; int tl = nd_text(&t); compare(p, n, t, tl); free(p); free(t); }
//@ x=h_class q="T=60" what="every escape, alone, repeated, inside a set and inside a negated set, against every byte; hexadecimal escapes; a set, a dot and a literal byte of any value"
void h_class(void) {
    u8 p[12], t[2]; int n = 0, k = nd_pick(0, 9); u8 c = nd_u8(); t[0] = nd_u8(); t[1] = 'q'; 
    switch (k) {
    case 0: p[n++] = '\\'; p[n++] = (u8)cc_(c); break;
    case 1: p[n++] = '['; p[n++] = '\\'; p[n++] = (u8)cc_(c); p[n++] = ']'; break;
    case 2: p[n++] = '['; p[n++] = '^'; p[n++] = 'Z'; p[n++] = '\\'; p[n++] = (u8)cc_(c); p[n++] = ']'; break;
    case 3: p[n++] = '\\'; p[n++] = (u8)cc_(c); p[n++] = '*'; p[n++] = 'q'; p[n++] = '$'; break;
    case 4: p[n++] = '\\'; p[n++] = "0123456789abcdefABCDEF"[cc_(c % 22)]; p[n++] = "0123456789abcdefABCDEF"[nd_pick(0, 21)]; break;
    case 5: p[n++] = '['; p[n++] = 'Z'; p[n++] = '\\'; p[n++] = "0123456789abcdefABCDEF"[cc_(c % 22)]; p[n++] = "0123456789abcdefABCDEF"[nd_pick(0, 21)]; p[n++] = 'Y'; p[n++] = ']'; break;
    case 6: p[n++] = (u8)cc_(c); break;
    case 7: p[n++] = '['; p[n++] = (u8)cc_(c); p[n++] = 'Z'; p[n++] = ']'; break;
    case 8: p[n++] = 'Z'; p[n++] = (u8)cc_(c); p[n++] = '?'; t[1] = (u8)nd_u8(); break;
    default: p[n++] = '['; p[n++] = '^'; p[n++] = (u8)cc_(c); p[n++] = '\\'; p[n++] = 'w'; p[n++] = ']'; }
    P_ = p; n_ = n; ASSUME(!lone_backslash()); u8 *q = (u8 *)malloc(n), *u = (u8 *)malloc(2); memcpy(q, p, n); memcpy(u, t, 2); compare(q, n, u, nd_pick(0, 2)); free(q); free(u);
}
//@ x=h_safe q="KS=4,T=60" t="KS=6,T=300" what="any bytes as a pattern, compiled into a buffer of any size from nothing to more than enough: no writes past the buffer, no reads past the pattern, too small a buffer is reported, otherwise the same program as on the heap, and matching stays inside it"
#ifndef KS
#define KS 3
#endif
void h_safe(void) {
    int n = nd_pick(0, KS); u8 *p = (u8 *)malloc(n ? n : 1), *t = (u8 *)malloc(2); for (int i = 0; i < n; i++) p[i] = nd_u8(); t[0] = nd_u8(); t[1] = 'b'; vp_fail_at = -1;
    zpl_re h, b; int e = zpl_re_compile(&h, vp_heap(), (char *)p, n), cap = nd_pick(0, 5 * KS); u8 *buf = (u8 *)malloc(cap ? cap : 1); int f = zpl_re_compile_from_buffer(&b, (char *)p, n, buf, cap);
    if (f == 0) { CHECK(e == 0 && b.buf_len <= cap, "fits"); CHECK(b.buf_len == h.buf_len && memcmp(b.buf, h.buf, h.buf_len) == 0, "same program in a buffer as on the heap"); int tl = nd_pick(0, 2); zpl_isize o1 = -1, o2 = -1; u8 *x = t + 2 - tl; int g = zpl_re_match(&b, (char *)x, tl, 0, 0, &o1); CHECK(g == zpl_re_match(&h, (char *)x, tl, 0, 0, &o2) && o1 == o2, "same match"); CHECK(!g || (o1 >= 0 && o1 <= tl), "end inside the text"); }
    else CHECK(f == e || f == ZPL_RE_ERROR_TOO_LONG, "only the buffer size makes a difference");
    if (e == 0 && cap >= h.buf_len + 4) CHECK(f == 0, "a buffer that is large enough is accepted");
    if (e == 0) zpl_re_destroy(&h); CHECK(vp_live == 0, "no memory kept"); zpl_re_destroy(&b); free(p); free(t); free(buf); REACHED();
}
//@ x=h_long q="T=60,STEPS=60000000" what="literals, sets, alternatives and group counts around the limits of the compiled form (127, 128, 255, 256 bytes): compared with the reference or rejected as too long, never mismatched"
void h_long(void) {
    static int const N[] = { 2, 126, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255, 256, 257, 300 }; int L = N[nd_pick(0, 14)], k = nd_pick(0, 8); u8 *p = (u8 *)malloc(2 * L + 16), *t = (u8 *)malloc(L + 4); int n = 0, tl = L; u8 x = nd_u8();
    for (int i = 0; i < L; i++) t[i] = (u8)('a' + i % 7); int last = L - 1;
    if (k == 0) { memcpy(p, t, L); n = L; }
    if (k == 1) { memcpy(p, t, L); n = L; p[n++] = '+'; }
    if (k == 2) { p[n++] = '['; for (int i = 0; i < L; i++) p[n++] = (u8)(i == L - 1 ? 'z' : 'a' + i % 7); p[n++] = ']'; p[n++] = '$'; tl = 1; last = 0; }
    if (k == 3) { memcpy(p, t, L); n = L; p[n++] = '|'; p[n++] = 'z'; p[n++] = '$'; }
    if (k == 4) { p[n++] = '('; p[n++] = 'z'; p[n++] = '|'; memcpy(p + n, t, L); n += L; p[n++] = ')'; p[n++] = '$'; }
    if (k == 5) { p[n++] = '^'; for (int i = 0; i < L; i++) { p[n++] = '.'; } p[n++] = '|'; p[n++] = 'z'; }
    if (k == 7) { memcpy(p, t, L); n = L; p[n++] = '*'; p[n++] = '$'; }
    if (k == 8) { memcpy(p, t, L); n = L; p[n++] = '?'; p[n++] = 'q'; t[L] = t[L - 1]; tl = L; }
    if (k == 6) { p[n++] = '['; p[n++] = '^'; for (int i = 0; i < L; i++) { p[n++] = '\\'; p[n++] = "dwst"[i % 4]; } p[n++] = ']'; tl = 1; last = 0; }
    t[last] = x; int cut = nd_pick(0, 1); if (cut && tl > 1) tl--; u8 *q = (u8 *)malloc(n), *u = (u8 *)malloc(tl); memcpy(q, p, n); memcpy(u, t, tl); P_ = q; n_ = n; S_ = u; m_ = tl;
    zpl_re re; vp_fail_at = -1; int e = zpl_re_compile(&re, vp_heap(), (char *)q, n); CHECK(e == 0 || e == ZPL_RE_ERROR_TOO_LONG, "well formed"); if (L < 120) CHECK(e == 0, "short patterns are accepted");
    if (e == 0) { int end = -1, want = matches(&end); zpl_isize o = -1; CHECK(!!zpl_re_match(&re, (char *)u, tl, 0, 0, &o) == want, "long pattern matches exactly its language"); if (want) CHECK(o == end, "end of the match"); zpl_re_destroy(&re); }
    CHECK(vp_live == 0, "no memory kept"); free(p); free(t); free(q); free(u); REACHED();
}
//@ x=h_all q="T=60" what="matching all occurrences terminates, hands out one set of captures for every occurrence, each inside the text, and keeps no other memory"
void h_all(void) {
    static char const *const PT[] = { "a", "(a)", "a*", "(a*)", "(b)|(a)", "b*?", "(a?)b", "(a|ab)(c|b)?", "$", "(.)(.)", "", "(^a)" }; char const *p = PT[nd_pick(0, 11)]; int pn = (int)strlen(p); if (!strcmp(p, "(a|ab)(c|b)?")) pn -= 1;
    int tl = nd_pick(0, 4); u8 *t = (u8 *)malloc(tl ? tl : 1); for (int i = 0; i < tl; i++) t[i] = nd_u8(); int mark = vp_heapmark(); zpl_re re; vp_fail_at = -1; CHECK(zpl_re_compile(&re, zpl_heap(), p, pn) == 0, "compiles");
    zpl_re_capture *out; zpl_array_init(out, zpl_heap()); int mc = nd_pick(1, 2), ok = zpl_re_match_all(&re, (char *)t, tl, mc, &out);
    /* reference: repeated matching of the rest of the text */
    P_ = (u8 const *)p; n_ = pn; int pos = 0, k = 0, want = 1; while (pos < tl) { S_ = t + pos; m_ = tl - pos; int end; if (!matches(&end)) { want = 0; break; } for (int g = 0; g < mc; g++, k++) { CHECK(k < zpl_array_count(out), "one set for every occurrence"); if (gs_[g] >= 0 && ge_[g] >= 0) CHECK(out[k].str == (char *)t + pos + gs_[g] && out[k].len == ge_[g] - gs_[g], "what the group matched"); else if (out[k].str) CHECK(out[k].str >= (char *)t && out[k].len >= 0 && out[k].str + out[k].len <= (char *)t + tl, "inside the text"); } pos += end > 1 ? end : 1; }
    CHECK(k == zpl_array_count(out), "no more than that"); CHECK(!!ok == want, "tells whether the whole text was covered"); zpl_array_free(out); zpl_re_destroy(&re); CHECK(vp_heapmark() == mark, "no memory kept"); free(t); REACHED();
}
//@ x=h_cap q="T=60" what="two groups, what follows them and an alternative, each one of eight pieces, against every text up to 4 bytes: captures of groups that were tried and given up, too"
void h_cap(void) {
    static char const *const PC[] = { ".", "a", "b?", "a*", "..", "a|ab", "", "(b)|a+?" }; static char const *const SEP[] = { "(", ")(", ")", "|" }; u8 *p = (u8 *)malloc(40), *t; int n = 0;
    for (int i = 0; i < 4; i++) { for (char const *s = SEP[i]; *s; s++) p[n++] = (u8)*s; for (char const *s = PC[nd_pick(0, i < 2 ? 7 : 4)]; *s; s++) p[n++] = (u8)*s; }
    int l = nd_pick(0, 4); t = (u8 *)malloc(l ? l : 1); for (int i = 0; i < l; i++) t[i] = nd_u8(); compare(p, n, t, l); free(p); free(t);
}
//@ x=h_store q="T=60,STEPS=60000000" what="the compiled form outgrows its first allocation, several times: nothing compiled is lost, memory is returned"
void h_store(void) {
    static char p[1400]; static char t[700]; int k = nd_pick(0, 4); k = k == 0 ? 127 : k == 1 ? 129 : k == 2 ? 136 : k == 3 ? 270 : 660; int at = nd_pick(0, 3); at = at == 0 ? 0 : at == 1 ? 120 : at == 2 ? k - 2 : k - 1; char c = nd_char();
    for (int i = 0; i < k; i++) { p[2 * i] = '\\'; p[2 * i + 1] = i & 1 ? 'd' : 'l'; t[i] = i & 1 ? '7' : 'q'; } t[at] = c; int ok = at & 1 ? c >= '0' && c <= '9' : c >= 'a' && c <= 'z';
    vp_live = 0; zpl_re re; CHECK(zpl_re_compile(&re, vp_heap(), p, 2 * k) == ZPL_RE_ERROR_NONE, "compiled"); zpl_isize off = -1; zpl_b32 r = zpl_re_match(&re, t, k, 0, 0, &off);
    CHECK(!!r == ok, "every instruction is kept"); if (r) CHECK(off == k, "and consumes its byte"); zpl_re_destroy(&re); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_set q="TX2=3,T=60" t="TX2=5,T=300" what="sets and negated sets of several characters, classes and literals, with every repetition, before and after other pieces, against every text: an item that does not match hands over to what follows exactly"
#ifndef TX2
#define TX2 3
#endif
void h_set(void) {
    static char const *const IT[] = { "[ab]", "[^ab]", "[a\\d]", "[^a\\d]", "[^\\dz]", "[^abcd]", "ab", "\\d", "(ab|c)", "[a]", "[^a]" }, *const QT[] = { "", "?", "*", "+", "*?", "+?" }, *const FO[] = { "", "a", "b", "ac", "d$", "[^b]", "(c)", "|b" }, *const PR[] = { "", "^", "b" };
    u8 *p = (u8 *)malloc(24), *t; int n = 0; char const *pc[5]; int np = 0; pc[np++] = PR[nd_pick(0, 2)]; pc[np++] = IT[nd_pick(0, 10)]; pc[np++] = QT[nd_pick(0, 5)]; pc[np++] = FO[nd_pick(0, 7)]; if (nd_pick(0, 1)) pc[np++] = "$";
    for (int i = 0; i < np; i++) for (char const *s = pc[i]; *s; s++) p[n++] = (u8)*s; int l = nd_pick(0, TX2); t = (u8 *)malloc(l ? l : 1); for (int i = 0; i < l; i++) t[i] = nd_u8(); compare(p, n, t, l); free(p); free(t);
}
//@ x=h_nomem q="T=60" what="compiling with the k-th allocation refused: an error or a working program, nothing leaked"
void h_nomem(void) {
    static char const *const U[4] = { "a|", "(a)", "x+", "(a|b)" }; static int const N[4] = { 28, 35, 68, 17 }; int k = nd_pick(0, 3), n = 0, l = (int)strlen(U[k]); char p[256]; for (int i = 0; i < N[k]; i++) { memcpy(p + n, U[k], l); n += l; } char *q = (char *)malloc(n); memcpy(q, p, n); if (k == 2) { q[n - 2] = nd_char(); u8 c = (u8)q[n - 2]; ASSUME((c >= 'a' && c <= 'z') || c >= 128); }
    vp_live = 0; vp_allocs = 0; vp_fail_at = nd_pick(0, 4); zpl_re re; int f = vp_fail_at, e = zpl_re_compile(&re, vp_heap(), q, n); vp_fail_at = -1; if (f == 4) CHECK(!e, "a few allocations are enough"); if (f == 0) CHECK(e, "refused memory is reported");
    if (!e) { zpl_isize o = 0; char t = 'a'; if (k == 0) CHECK(zpl_re_match(&re, &t, 1, 0, 0, &o) && o == 1, "a working program"); zpl_re_destroy(&re); } CHECK(vp_live == 0, "no memory kept"); free(q); REACHED();
}
