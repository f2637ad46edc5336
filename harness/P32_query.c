// P32: number text and document queries
#include "vp.h"
#ifndef N
#define N 4
#endif
static int isd(char c) { return c >= '0' && c <= '9'; }
static int hexv(char c) { return isd(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* reference reading of a number at the start of s: 0 none, 1 integer, 2 hexadecimal, 3 real; length and integer value */
static int ref(char const *s, int *len, unsigned long long *v) {
    int i = 0, neg = s[0] == '-', d = 0, k = 1, ex = 0, en = 0; unsigned long long a = 0; if (s[0] == '-' || s[0] == '+') i++;
    if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && hexv(s[i + 2]) >= 0) { k = 2; for (i += 2; hexv(s[i]) >= 0; i++) a = a * 16 + (unsigned)hexv(s[i]), d++; if (s[i] == '.') return 0; }
    else { for (; isd(s[i]); i++) a = a * 10 + (unsigned)(s[i] - '0'), d++; if (s[i] == '.') { k = 3; for (i++; isd(s[i]); i++) d++; if (s[i] == '.') return 0; } if (!d) return 0;
        if (s[i] == 'e' || s[i] == 'E') { int j = i + 1; en = s[j] == '-'; if (s[j] == '-' || s[j] == '+') j++; if (isd(s[j])) { for (; isd(s[j]); j++) ex = ex * 10 + s[j] - '0'; i = j; } } if (en && ex && a && k == 1) k = 3; }
    if (!d) return 0; if (k == 1) for (; ex > 0 && a; ex--) { if (a > 922337203685477580ull) { k = 3; break; } a *= 10; } *len = i; *v = neg ? 0 - a : a; return k;
}
static char *text(int n) { char *s = (char *)malloc((size_t)n + 1); static char const al[] = "0159aexX.+-E7g "; for (int i = 0; i < n; i++) { s[i] = nd_char(); int ok = 0; for (int j = 0; al[j]; j++) ok |= s[i] == al[j]; ASSUME(ok); } s[n] = 0; return s; }
static void num(char *s) {
    zpl_adt_node n = { 0 }, z = { 0 }; n.string = s; int len = 0; unsigned long long v = 0; int k = ref(s, &len, &v); n.type = ZPL_ADT_TYPE_STRING; z = n; char *e = zpl_adt_parse_number(&n, s);
    if (!k) { CHECK(n.type == ZPL_ADT_TYPE_STRING && n.string == s, "text that is no number is left alone"); CHECK(e == s + (s[0] != 0), "one character is skipped, but never the end"); }
    else { CHECK(e == s + len, "exactly the number is consumed"); if (k == 3) CHECK(n.type == ZPL_ADT_TYPE_REAL, "a real"); else { CHECK(n.type == ZPL_ADT_TYPE_INTEGER, "an integer"); CHECK((unsigned long long)n.integer == v, "its value"); CHECK((n.props == ZPL_ADT_PROPS_IS_HEX) == (k == 2), "hexadecimal is remembered"); CHECK(!!n.neg_zero == (v == 0 && s[0] == '-'), "negative zero is remembered"); } }
    zpl_adt_node m = z; int all = k && s[len] == 0; e = zpl_adt_parse_number_strict(&m, s); if (all) CHECK(e == s + len && m.type == (k == 3 ? ZPL_ADT_TYPE_REAL : ZPL_ADT_TYPE_INTEGER), "strict: a whole number"); else CHECK(e == s && m.type == ZPL_ADT_TYPE_STRING && m.string == s, "strict: anything else is left alone");
    m = z; CHECK(zpl_adt_str_to_number_strict(&m) == ZPL_ADT_ERROR_NONE && (m.type == ZPL_ADT_TYPE_STRING) == !all, "strict conversion"); m = z; CHECK(zpl_adt_str_to_number(&m) == ZPL_ADT_ERROR_NONE && (m.type == ZPL_ADT_TYPE_STRING) == !k, "conversion");
}
//@ x=h_num q="N=5,T=80;N=4,T=40" t="N=6,T=900,J=8;N=5,T=300" what="every text of up to N characters: classification, consumed length, integer and hexadecimal value, strict forms; nothing outside the text is read"
void h_num(void) { char *s = text(nd_pick(0, N)); num(s); free(s); REACHED(); }
//@ x=h_bytes q="N=4,T=60;N=3,T=30" t="N=5,T=600,J=8;N=3,T=100" what="the same for arbitrary bytes"
void h_bytes(void) { char *s = vp_str(N); num(s); free(s); REACHED(); }
//@ x=h_long q="T=60" what="numbers of up to 400 digits: nothing overflows, integers beyond the range become reals of the denoted magnitude"
void h_long(void) {
    int n = nd_pick(0, 5), lens[] = { 18, 19, 20, 47, 49, 300 }, fr = nd_pick(0, 3), fl[] = { 0, 1, 60, 400 }, ng = nd_pick(0, 1), lead = nd_pick(1, 9), ex = nd_pick(0, 2); n = lens[n]; fr = fl[fr]; char *s = (char *)malloc(n + fr + 12), *p = s; double w = 0; unsigned long long iv = 0; int fits = 1;
    if (ng) *p++ = '-'; for (int i = 0; i < n; i++) { int d = i ? 3 : lead; *p++ = '0' + d; w = w * 10 + d; if (i < 20) { if (iv > (9223372036854775807ull - d) / 10) fits = 0; iv = iv * 10 + d; } } if (n > 19) fits = 0;
    if (fr) { *p++ = '.'; for (int i = 0; i < fr; i++) *p++ = '7'; } if (ex) { *p++ = 'e'; *p++ = ex == 1 ? '-' : '+'; *p++ = '7'; if (ex == 1) w /= 1e7; else { w *= 1e7; fits = 0; } if (ex == 1) fits = 0; } *p = 0;
    zpl_adt_node x = { 0 }; CHECK(zpl_adt_parse_number(&x, s) == p, "consumed"); int real = fr || !fits; CHECK(x.type == (real ? ZPL_ADT_TYPE_REAL : ZPL_ADT_TYPE_INTEGER), "type"); if (!real) CHECK((unsigned long long)x.integer == (ng ? 0 - iv : iv), "value"); else { double v = ng ? -x.real : x.real, d = v > w ? v - w : w - v; CHECK(d <= w * 1e-9 + (fr && n < 2 ? 1 : 0) + (fr ? w * 1e-14 : 0), "nearby value"); }
    free(s); REACHED();
}
//@ x=h_real q="D=2,T=90;D=1" t="D=3,T=300,J=8" what="reals with every digit choice, sign, missing whole or fraction part and exponent -12..12: value and textual analysis; printed form reads back as the same number"
#ifndef D
#define D 2
#endif
void h_real(void) {
    char s[64], *p = s; int n = nd_pick(0, D), f = nd_pick(0, D), z = nd_pick(0, 2), ex = nd_pick(0, 5), exs[] = { 0, 1, -1, 8, -9, 12 }, sg = nd_pick(0, 1); ASSUME(n + f > 0); long long a = 0, b = 0; double num = 0, den = 1; ex = exs[ex];
    if (sg) *p++ = '-'; for (int i = 0; i < n; i++) { int d = nd_pick(0, 9); *p++ = '0' + d; a = a * 10 + d; } *p++ = '.'; num = (double)a; int off = 0; for (int i = 0; f && i < z; i++) { *p++ = '0'; den *= 10; off++; } for (int i = 0; i < f; i++) { int d = nd_pick(0, 9); *p++ = '0' + d; if (!b && !d) off++; b = b * 10 + d; den *= 10; } num = num * den + (double)b; double w = num / den;
    if (ex) { p += 0; *p++ = 'e'; if (ex < 0) *p++ = '-'; int q = ex < 0 ? -ex : ex; if (q >= 10) *p++ = '0' + q / 10; *p++ = '0' + q % 10; for (int i = 0; i < q; i++) if (ex < 0) w /= 10; else w *= 10; } *p = 0;
    zpl_adt_node x = { 0 }; CHECK(zpl_adt_parse_number(&x, s) == p && x.type == ZPL_ADT_TYPE_REAL, "a real"); double v = sg ? -x.real : x.real, d = v > w ? v - w : w - v; CHECK(d <= w * 1e-14, "the value the text denotes");
    CHECK(x.base == (sg ? -a : a) && x.base2 == b && x.base2_offset == off && x.exp == ex, "analysed parts"); CHECK(!!x.lead_digit == (n > 0), "leading digit");
    char out[64]; memset(out, 0, sizeof out); zpl_file t; zpl_file_stream_open(&t, vp_heap(), (zpl_u8 *)out, sizeof out, ZPL_FILE_STREAM_WRITABLE); CHECK(zpl_adt_print_number(&t, &x) == ZPL_ADT_ERROR_NONE, "printed"); zpl_file_close(&t);
    zpl_adt_node y = { 0 }; char *e = zpl_adt_parse_number(&y, out); double u = y.type == ZPL_ADT_TYPE_REAL ? y.real : (double)y.integer, du = u > x.real ? u - x.real : x.real - u; CHECK(e == out + rlen(out), "the printed form is a number"); CHECK(du <= (x.props ? w * 1e-14 : 1.001e-6), "of the same value"); REACHED();
}
//@ x=h_int q="T=60" what="printed integers read back as the same number, in decimal and hexadecimal"
void h_int(void) {
    zpl_adt_node x = { 0 }, y = { 0 }; long long v = nd_pick(0, 1) ? nd_pick(0, 255) : (long long)((1ull << nd_pick(0, 63)) + (unsigned long long)nd_pick(0, 2) - 1); if (nd_pick(0, 1)) v = (long long)(0 - (unsigned long long)v); zpl_adt_set_int(&x, "n", v); if (nd_pick(0, 1)) x.props = ZPL_ADT_PROPS_IS_HEX;
    ASSUME(x.props || v != (long long)(1ull << 63)); char out[64]; memset(out, 0, sizeof out); zpl_file t; zpl_file_stream_open(&t, vp_heap(), (zpl_u8 *)out, sizeof out, ZPL_FILE_STREAM_WRITABLE); zpl_adt_print_number(&t, &x); zpl_file_close(&t);
    CHECK(zpl_adt_parse_number(&y, out) == out + rlen(out) && y.type == ZPL_ADT_TYPE_INTEGER && y.integer == v && y.props == x.props, "same number"); x.type = ZPL_ADT_TYPE_STRING; CHECK(zpl_adt_print_number(&t, &x) == ZPL_ADT_ERROR_INVALID_TYPE, "only numbers"); x.type = ZPL_ADT_TYPE_REAL; CHECK(zpl_adt_str_to_number(&x) == ZPL_ADT_ERROR_ALREADY_CONVERTED && zpl_adt_str_to_number_strict(&x) == ZPL_ADT_ERROR_ALREADY_CONVERTED, "already a number"); x.type = ZPL_ADT_TYPE_ARRAY; CHECK(zpl_adt_str_to_number(&x) == ZPL_ADT_ERROR_INVALID_TYPE && zpl_adt_str_to_number_strict(&x) == ZPL_ADT_ERROR_INVALID_TYPE, "no text"); REACHED();
}
/* ---- queries over { a: { b: 1, c: "1" }, b: [ 7, { a: 2, b: "x" }, "x", [ "a" ], { a: "1" } ], c: "b" }, names symbolic where marked */
static zpl_adt_node root; static char nm[3][3];
static void build(void) {
    zpl_adt_node z = { 0 }; root = z; zpl_adt_set_obj(&root, "root", vp_heap()); zpl_adt_node *a = zpl_adt_append_obj(&root, nm[0]); zpl_adt_append_int(a, "b", 1); zpl_adt_append_str(a, nm[1], "1");
    zpl_adt_node *b = zpl_adt_append_arr(&root, "b"); zpl_adt_append_int(b, 0, 7); zpl_adt_node *o = zpl_adt_append_obj(b, 0); zpl_adt_append_int(o, "a", 2); zpl_adt_append_str(o, nm[2], "x"); zpl_adt_append_str(b, 0, "x"); zpl_adt_node *i = zpl_adt_append_arr(b, 0); zpl_adt_append_str(i, 0, "a"); o = zpl_adt_append_obj(b, 0); zpl_adt_append_str(o, "a", "1"); zpl_adt_append_str(&root, "c", "b");
}
static int eqn(char const *s, char const *p, int n) { for (int i = 0; i < n; i++) if (s[i] != p[i] || !s[i]) return 0; return s[n] == 0; }
static int val(zpl_adt_node *x, char const *p, int n) { if (x->type == ZPL_ADT_TYPE_STRING) return eqn(x->string, p, n); if (x->type == ZPL_ADT_TYPE_INTEGER) return n == 1 && p[0] == '0' + x->integer; return 0; }
static int fld(zpl_adt_node *x, char const *f, int fn, char const *v, int vn) { for (int i = 0; i < zpl_array_count(x->nodes); i++) if (eqn(x->nodes[i].name, f, fn) && val(&x->nodes[i], v, vn)) return 1; return 0; }
/* *legal: bracketed lookups are well formed wherever they are reached (the library asserts that) */
static zpl_adt_node *look(zpl_adt_node *x, char const *u, int *legal) {
    if (*u == '/') u++; if (!*u) return x; if (!x || (x->type != ZPL_ADT_TYPE_OBJECT && x->type != ZPL_ADT_TYPE_ARRAY)) return 0; int n = 0; while (u[n] && u[n] != '/') n++; zpl_adt_node *r = 0; int c = (int)zpl_array_count(x->nodes);
    if (*u == '[') { int q = 1, b = 1; while (q < n && u[q] != '=') q++; while (b < n && u[b] != ']') b++; if ((q == n && x->type != ZPL_ADT_TYPE_ARRAY) || b == n || (q < n && b < q)) { *legal = 0; return 0; }
        if (q < n) { if (x->type == ZPL_ADT_TYPE_OBJECT) { if (fld(x, u + 1, q - 1, u + q + 1, b - q - 1)) r = x; } else for (int i = 0; !r && i < c; i++) if (x->nodes[i].type == ZPL_ADT_TYPE_OBJECT && fld(x->nodes + i, u + 1, q - 1, u + q + 1, b - q - 1)) r = x->nodes + i; }
        else for (int i = 0; !r && i < c; i++) if (val(x->nodes + i, u + 1, b - 1)) r = x->nodes + i; }
    else if (x->type == ZPL_ADT_TYPE_OBJECT) { for (int i = 0; !r && i < c; i++) if (eqn(x->nodes[i].name, u, n)) r = x->nodes + i; }
    else { int v = 0, ok = n > 0; for (int i = 0; i < n; i++) { if (!isd(u[i])) ok = 0; v = v * 10 + (u[i] - '0'); } if (ok && v < c) r = x->nodes + v; }
    if (u[n]) return look(r, u + n + 1, legal); return r;
}
//@ x=h_query q="Q=6,T=90;Q=4,T=40" t="Q=8,T=900,J=8;Q=7,T=300" what="every query of up to Q characters over names, indices, separators and bracketed lookups finds exactly the denoted node or nothing"
#ifndef Q
#define Q 4
#endif
void h_query(void) {
    vp_live = 0; vp_fail_at = -1; memcpy(nm, "a\0\0c\0\0b\0", 9); build(); int n = nd_pick(0, Q); char *u = (char *)malloc(n + 1); for (int i = 0; i < n; i++) { u[i] = nd_char(); static char const al[] = "abc/012[]=x1"; int ok = 0; for (int j = 0; al[j]; j++) ok |= u[i] == al[j]; ASSUME(ok); } u[n] = 0;
    int legal = 1; zpl_adt_node *w = look(&root, u, &legal); ASSUME(legal); CHECK(zpl_adt_query(&root, u) == w, "exactly the denoted node"); free(u); zpl_adt_destroy_branch(&root); CHECK(vp_live == 0, "a query leaves nothing behind"); REACHED();
}
//@ x=h_deep q="Q=6,T=90;Q=4,T=40" t="Q=8,T=900,J=8;Q=7,T=300" what="queries into the array b, behind a fixed prefix"
void h_deep(void) {
    vp_live = 0; vp_fail_at = -1; memcpy(nm, "a\0\0c\0\0b\0", 9); build(); int n = nd_pick(0, Q), pre = nd_pick(0, 1); char *u = (char *)malloc(n + 3); u[0] = 'b'; u[1] = '/'; if (pre) { u[2] = '['; } ASSUME(!pre || n > 0); for (int i = pre; i < n; i++) { u[i + 2] = nd_char(); static char const al[] = "ab/12[]=x"; int ok = 0; for (int j = 0; al[j]; j++) ok |= u[i + 2] == al[j]; ASSUME(ok); } u[n + 2] = 0;
    int legal = 1; zpl_adt_node *w = look(&root, u, &legal); ASSUME(legal); CHECK(zpl_adt_query(&root, u) == w, "exactly the denoted node"); free(u); zpl_adt_destroy_branch(&root); CHECK(vp_live == 0, "a query leaves nothing behind"); REACHED();
}
//@ x=h_find q="T=60" what="finding a name, directly and recursively, for every name text of up to two characters in three places"
static zpl_adt_node *find(zpl_adt_node *x, char const *n, int deep) { if (x->type != ZPL_ADT_TYPE_OBJECT) return 0; for (int i = 0; i < zpl_array_count(x->nodes); i++) if (rcmp(x->nodes[i].name, n, 3) == 0) return x->nodes + i; if (deep) for (int i = 0; i < zpl_array_count(x->nodes); i++) { zpl_adt_node *r = find(x->nodes + i, n, 1); if (r) return r; } return 0; }
void h_find(void) {
    vp_live = 0; vp_fail_at = -1; for (int i = 0; i < 3; i++) { nm[i][0] = nd_char(); nm[i][1] = i == 1 ? nd_char() : 0; nm[i][2] = 0; } build(); char *s = vp_str(2); int deep = nd_pick(0, 1); CHECK(zpl_adt_find(&root, s, deep) == find(&root, s, deep), "exactly the first node of that name"); CHECK(!zpl_adt_find(root.nodes + 1, s, 1) && !zpl_adt_find(root.nodes + 2, s, 1), "only objects have fields"); free(s); zpl_adt_destroy_branch(&root); REACHED();
}
//@ x=h_exp q="T=60" what="exponents of up to twelve digits, around every width an exponent could be kept in: the value is beyond the range, nothing, or zero, never a wrapped one"
void h_exp(void) {
    static char const *const EX[] = { "308", "309", "324", "400", "9999", "10000", "32767", "32768", "32769", "65535", "65536", "65537", "65546", "99999", "2147483647", "2147483648", "4294967297", "999999999999", "0000000000001" }; int k = nd_pick(0, 18), neg = nd_pick(0, 1), sg = nd_pick(0, 2), fr = nd_pick(0, 1); char dg = nd_char(); ASSUME(isd(dg)); char s[40], *p = s; if (neg) *p++ = '-'; *p++ = dg; if (fr) { *p++ = '.'; *p++ = '0'; } *p++ = 'e'; if (sg) *p++ = sg == 1 ? '-' : '+'; for (char const *q = EX[k]; *q; q++) *p++ = *q; *p = 0;
    zpl_adt_node x = { 0 }; CHECK(zpl_adt_parse_number(&x, s) == p, "exactly the number is consumed"); double v = x.type == ZPL_ADT_TYPE_REAL ? x.real : (double)x.integer; if (neg) v = -v;
    if (dg == '0') CHECK(v == 0, "zero times anything"); else if (k == 18) { double w = dg - '0', d; w = sg == 1 ? w / 10 : w * 10; d = v - w; CHECK(d < 1e-9 && d > -1e-9, "leading zeros of the exponent"); } else if (sg == 1) CHECK(v >= 0 && v < 1e-300, "vanishing"); else CHECK(v > 1e300, "huge"); REACHED();
}
//@ x=h_value q="T=60,STEPS=20000000" what="[value] and [field=value] lookups of numbers compare the printed text, also for the longest numbers there are"
void h_value(void) {
    static double const V[] = { 1e300, 1.7976931348623157e308, -1e300, 0.5, 123456.0, -0.25 }; zpl_adt_node a = { 0 }; vp_live = 0; vp_fail_at = -1; zpl_adt_set_arr(&a, "r", vp_heap()); int k = nd_pick(0, 5), far = nd_pick(0, 2); zpl_adt_append_int(&a, 0, 7); zpl_adt_node *o = zpl_adt_append_obj(&a, 0); zpl_adt_append_flt(o, "f", V[k]); if (far == 1) zpl_adt_append_flt(&a, 0, -3); zpl_adt_append_flt(&a, 0, V[k]); zpl_adt_append_int(&a, 0, 9223372036854775807ll);
    static char num[1024]; for (int i = 0; i < 1024; i++) num[i] = 0; int n = (int)zpl_snprintf(num, 1000, "%f", V[k]); while (n > 0 && !num[n - 1]) n--; CHECK(n > 0 && n < 400, "the printed text"); static char u[1100]; char *p = u; int how = nd_pick(0, 2); *p++ = '['; if (how == 1) { *p++ = 'f'; *p++ = '='; } for (int i = 0; i < n; i++) *p++ = num[i]; if (how == 2) *p++ = '1'; *p++ = ']'; *p = 0;
    zpl_adt_node *r = zpl_adt_query(&a, u); CHECK(r == (how == 0 ? a.nodes + (far == 1 ? 3 : 2) : how == 1 ? a.nodes + 1 : 0), "exactly the node of that value"); CHECK(zpl_adt_query(&a, "[9223372036854775807]") == a.nodes + (far == 1 ? 4 : 3) && zpl_adt_query(&a, "[7]") == a.nodes, "integers"); zpl_adt_destroy_branch(&a); CHECK(vp_live == 0, "a query leaves nothing behind"); REACHED();
}
