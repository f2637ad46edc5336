// P12: C-string helpers against their definitions
#include "vp.h"
#ifndef N
#define N 3
#endif
//@ x=h_cmp q="N=5,T=60;N=4,T=30" t="N=7,T=900,J=8;N=6,T=300" what="length, comparison, bounded comparison, prefix and suffix tests for all string pairs"
void h_cmp(void) {
    char *a = vp_str(N), *b = vp_str(N); int la = rlen(a), lb = rlen(b), n = nd_pick(0, N + 1);
    CHECK(zpl_strlen(a) == la && zpl_strlen(NULL) == 0, "strlen");
    CHECK(rsgn(zpl_strcmp(a, b)) == rcmp(a, b, N + 2), "strcmp orders by the first differing byte");
    CHECK(rsgn(zpl_strncmp(a, b, n)) == rcmp(a, b, n), "strncmp orders by the first differing byte within the limit");
    int pre = lb <= la, suf = lb <= la; for (int i = 0; i < lb; i++) { if (pre && a[i] != b[i]) pre = 0; if (suf && a[la - lb + i] != b[i]) suf = 0; }
    CHECK(!!zpl_str_has_prefix(a, b) == pre, "has_prefix"); CHECK(!!zpl_str_has_suffix(a, b) == suf, "has_suffix");
    free(a); free(b); REACHED();
}
//@ x=h_nlen q="T=30" what="strnlen stops at the limit even without a terminator; case mapping is ASCII only"
void h_nlen(void) {
    int n = nd_pick(0, 12); char *a = (char *)vp_bytes(n); int k = 0; while (k < n && a[k]) k++;
    CHECK(zpl_strnlen(a, n) == k, "strnlen");
    char *s = vp_strn(nd_pick(0, 4)); int l = rlen(s); char o[8]; for (int i = 0; i <= l; i++) o[i] = s[i];
    int up = nd_pick(0, 1); if (up) zpl_str_to_upper(s); else zpl_str_to_lower(s);
    for (int i = 0; i <= l; i++) { char e = o[i]; if (up && e >= 'a' && e <= 'z') e = e - 'a' + 'A'; if (!up && e >= 'A' && e <= 'Z') e = e - 'A' + 'a'; CHECK(s[i] == e, "case mapping"); }
    free(a); free(s); REACHED();
}
//@ x=h_copy q="N=5,T=60" t="N=8,T=300" what="copy, concatenation, bounded copies: contents, termination, padding and bounds"
void h_copy(void) {
    char *s = vp_str(N), *t = vp_str(N); int ls = rlen(s), lt = rlen(t), op = nd_pick(0, 6);
    if (op == 0) { char *d = (char *)malloc(ls + 1); memset(d, 'x', ls + 1); CHECK(zpl_strcpy(d, s) == d, "strcpy returns dest"); for (int i = 0; i <= ls; i++) CHECK(d[i] == s[i], "strcpy copies text and terminator"); free(d); }
    else if (op == 1) { char *d = (char *)malloc(ls + lt + 1); memset(d, 'x', ls + lt + 1); for (int i = 0; i <= ls; i++) d[i] = s[i]; CHECK(zpl_strcat(d, t) == d, "strcat returns dest"); for (int i = 0; i < ls; i++) CHECK(d[i] == s[i], "strcat keeps the head"); for (int i = 0; i <= lt; i++) CHECK(d[ls + i] == t[i], "strcat appends text and terminator"); free(d); }
    else if (op == 2) { int n = nd_pick(0, N + 2); char *d = (char *)malloc(n); CHECK(zpl_strncpy(d, s, n) == d, "strncpy returns dest"); for (int i = 0; i < n; i++) CHECK(d[i] == (i < ls ? s[i] : 0), "strncpy copies and pads"); free(d); }
    else if (op == 3) { int n = nd_pick(0, N + 2); char *d = (char *)malloc(n); CHECK(zpl_strlcpy(d, s, n) == (ls < n ? ls : n), "strlcpy returns the copied length"); for (int i = 0; i < n; i++) CHECK(d[i] == (i < ls ? s[i] : 0), "strlcpy copies and pads"); free(d); }
    else if (op == 4) { char *d = (char *)malloc(ls + lt + 1); zpl_str_concat(d, ls + lt + 1, s, ls, t, lt); for (int i = 0; i < ls; i++) CHECK(d[i] == s[i], "concat first"); for (int i = 0; i <= lt; i++) CHECK(d[ls + i] == t[i], "concat second, terminated"); free(d); }
    else if (op == 5) { char o[N + 1]; for (int i = 0; i <= ls; i++) o[i] = s[i]; CHECK(zpl_strrev(s) == s, "strrev returns its argument"); for (int i = 0; i < ls; i++) CHECK(s[i] == o[ls - 1 - i], "strrev reverses"); CHECK(s[ls] == 0, "strrev keeps the terminator"); }
    else { vp_live = 0; int n = nd_pick(0, N + 2); char *d = zpl_strdup(vp_heap(), s, n); int k = ls < n ? ls : n ? n - 1 : 0; for (int i = 0; i < k; i++) CHECK(d[i] == s[i], "strdup copies"); for (int i = k; i < n; i++) CHECK(d[i] == 0, "strdup terminates and clears the rest"); zpl_free(vp_heap(), d); CHECK(vp_live == 0, "no leak"); }
    free(s); free(t); REACHED();
}
//@ x=h_find q="N=5,T=60" t="N=8,T=300,J=8;N=7,T=300" what="character search, trimming and skipping helpers"
void h_find(void) {
    char *s = vp_str(N), c = nd_char(); int l = rlen(s), f = -1, r = -1; for (int i = 0; i <= l; i++) if (s[i] == c) { if (f < 0) f = i; r = i; }
    CHECK(zpl_char_first_occurence(s, c) == (f < 0 ? NULL : s + f), "first occurrence"); CHECK(zpl_char_last_occurence(s, c) == (r < 0 ? NULL : s + r), "last occurrence"); CHECK(zpl_strchr(s, c) == zpl_char_first_occurence(s, c), "strchr");
    CHECK(zpl_str_skip(s, c) == s + (f < 0 ? l : f), "skip stops at the character or the end");
    int nl = nd_pick(0, 1), k = 0; while (k < l && (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13)) && !(nl && s[k] == '\n')) k++;
    CHECK(zpl_str_trim(s, nl) == s + k, "trim");
    char *set = vp_str(2); int m = l; for (int i = l - 1; i >= 0; i--) for (int j = 0; set[j]; j++) if (s[i] == set[j]) m = i;
    CHECK(zpl_str_skip_any(s, set) == s + m, "skip_any stops at the nearest of the set");
    ASSUME(c != 0); char const *q = zpl_str_skip_literal(s, c); int e = 0; if (s[0] && s[0] != c) { e = 1; while (s[e] && (s[e] != c || s[e - 1] == '\\')) e++; } CHECK(q == s + e, "skip_literal stops at the first unescaped delimiter");
    e = 0; int ct = c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'; while ((s[e] && s[e] != c) || (e && s[e] && s[e - 1] == '\\' && ct)) e++; CHECK(zpl_str_control_skip(s, c) == s + e, "control_skip stops at the first delimiter that is no escape");
    free(s); free(set); REACHED();
}
//@ x=h_tok q="N=6,T=60" t="N=9,T=300,J=8;N=8,T=200" what="tokenisers: token text, termination, resume pointer"
void h_tok(void) {
    char *s = vp_str(N), *dl = vp_str(2); int l = rlen(s), k = 0; for (; k < l; k++) { int hit = 0; for (int j = 0; dl[j]; j++) if (dl[j] == s[k]) hit = 1; if (hit) break; }
    char *o = (char *)malloc(k + 1); const char *r = zpl_strtok(o, s, dl); for (int i = 0; i < k; i++) CHECK(o[i] == s[i], "strtok token"); CHECK(o[k] == 0, "strtok terminates"); CHECK(r == s + k + (k < l), "strtok resumes after the delimiter"); free(o);
    int n = nd_pick(1, N + 1); o = (char *)malloc(n); r = zpl_strntok(o, n, s, dl); int w = k < n ? k : n - 1; for (int i = 0; i < w; i++) CHECK(o[i] == s[i], "strntok token"); CHECK(o[w] == 0, "strntok terminates within the limit"); if (k < n) CHECK(r == s + k + (k < l), "strntok resumes after the delimiter"); else CHECK(r >= s && r <= s + l, "strntok stays inside the text");
    free(o); free(s); free(dl); REACHED();
}
//@ x=h_lines q="N=6,T=60" t="N=9,T=600,J=8;N=8,T=300" what="line splitting: lines equal the text between newlines, carriage returns dropped, memory returned"
void h_lines(void) {
    vp_live = 0; char *s = vp_str(N); int l = rlen(s), strip = nd_pick(0, 1); char o[N + 1]; for (int i = 0; i <= l; i++) o[i] = s[i];
    char **ln = zpl_str_split_lines(vp_heap(), s, strip); int n = 0, b = 0;
    while (b < l) {
        int e = b; while (e < l && o[e] != '\n') e++;
        int drop = strip && e == b;
        if (!drop) { CHECK(n < zpl_array_count(ln) && ln[n] == s + b, "line starts where it should"); int w = e - b; if (w > 0 && o[e - 1] == '\r') w--; for (int i = 0; i < w; i++) CHECK(ln[n][i] == o[b + i], "line text"); CHECK(ln[n][w] == 0, "line terminated"); n++; }
        b = e + 1;
    }
    CHECK(n == zpl_array_count(ln), "no extra lines"); zpl_array_free(ln); CHECK(vp_live == 0, "no leak"); free(s); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" what="texts of hundreds to tens of thousands of characters with arbitrary characters at the ends"
void h_large(void) {
    static int const L[4] = { 255, 256, 4097, 65537 }; int n = L[nd_pick(0, 3)]; char *s = (char *)malloc(n + 1), *t = (char *)malloc(n + 1); for (int i = 0; i < n; i++) s[i] = t[i] = (char)('a' + i % 26); s[n] = t[n] = 0; char u = nd_char(), v = nd_char(); ASSUME(u && v && u != '\n'); s[n - 1] = u; t[n - 1] = v;
    CHECK(zpl_strlen(s) == n && zpl_strnlen(s, n - 1) == n - 1 && zpl_strnlen(s, 2 * n) == n, "length"); CHECK(rsgn(zpl_strcmp(s, t)) == rsgn((int)(unsigned char)u - (int)(unsigned char)v), "comparison"); CHECK(zpl_strncmp(s, t, n - 1) == 0 && rsgn(zpl_strncmp(s, t, n)) == rsgn((int)(unsigned char)u - (int)(unsigned char)v), "bounded comparison");
    CHECK(zpl_char_last_occurence(s, u) == s + n - 1, "last occurrence"); CHECK(zpl_str_has_suffix(s, s + n - 9) && zpl_str_has_prefix(s, s), "prefix and suffix"); char *d = (char *)malloc(n + 2); CHECK(zpl_strlcpy(d, s, n + 1) == n && d[n - 1] == u && d[n] == 0, "bounded copy"); zpl_strncpy(d, t, n + 1); CHECK(d[n - 1] == v && d[n] == 0, "padded copy"); zpl_strcpy(d, s); CHECK(d[0] == 'a' && d[n - 1] == u && d[n] == 0, "copy"); zpl_str_concat(d, n + 2, s, n, "z", 1); CHECK(d[n - 1] == u && d[n] == 'z' && d[n + 1] == 0, "concatenation"); zpl_strrev(s); CHECK(s[0] == u && s[n - 1] == 'a' && s[n] == 0, "reversal");
    vp_live = 0; char *e = zpl_strdup(vp_heap(), t, n + 1); CHECK(e[n - 1] == v && e[n] == 0, "duplicate"); zpl_free(vp_heap(), e); free(s); free(t); free(d); REACHED();
}
//@ x=h_dup_fail q="T=60" what="duplicating reports a refused allocation"
void h_dup_fail(void) { vp_live = 0; vp_allocs = 0; vp_fail_at = 0; char *s = vp_str(2); char *d = zpl_strdup(vp_heap(), s, nd_pick(1, 4)); vp_fail_at = -1; CHECK(!d && vp_live == 0, "reported"); free(s); REACHED(); }
//@ x=h_lines_fail q="T=60" what="splitting lines with the first allocation refused yields nothing"
void h_lines_fail(void) { vp_live = 0; vp_allocs = 0; vp_fail_at = 0; char *s = vp_str(3); char **l = zpl_str_split_lines(vp_heap(), s, nd_pick(0, 1)); vp_fail_at = -1; CHECK(!l && vp_live == 0, "reported"); free(s); REACHED(); }
