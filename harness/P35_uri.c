// P35: URI parsing and writing
#include "vp.h"
#ifndef N
#define N 5
#endif
static int close6(double a, double b) { double d = a > b ? a - b : b - a, w = a < 0 ? -a : a; return a == b || d <= 1.01e-6 + w * 1e-13; }
static int seq(char const *a, char const *b) { if (!a || !b) return a == b; while (*a && *a == *b) a++, b++; return *a == *b; }
static int isn(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_INTEGER || x->type == ZPL_ADT_TYPE_REAL; }
static double nv(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_REAL ? x->real : (double)x->integer; }
static int cnt(zpl_adt_node *x) { return (int)zpl_array_count(x->nodes); }
static int flag(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_REAL && x->props == ZPL_ADT_PROPS_TRUE; }
static int inside(char const *p, char const *t, int n) { return !*p || (p >= t && p <= t + n && p + rlen(p) <= t + n); }
static void eqt(zpl_adt_node *a, zpl_adt_node *b) {
    int n = cnt(a); if (n && flag(a->nodes + n - 1) && !*a->nodes[n - 1].name) n--; /* a last parameter without name and value is written as nothing */
    CHECK(cnt(b) == n, "same number of parameters"); for (int i = 0; i < n; i++) { zpl_adt_node *x = a->nodes + i, *y = b->nodes + i; CHECK(seq(x->name, y->name), "same name"); CHECK(isn(x) == isn(y) && flag(x) == flag(y), "same kind of value"); if (isn(x)) CHECK(close6(nv(x), nv(y)), "same number up to the printed places"); else CHECK(seq(x->string, y->string) || (!x->string && !*y->string), "same text"); }
}
static int un(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hx(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void again(zpl_adt_node *x, int og) {
    zpl_string s = zpl_uri_write_string(vp_heap(), x); CHECK(s != 0, "written"); int n = rlen(s), i = 0; CHECK(n == zpl_string_length(s), "no terminator inside"); if (og) while (s[i] && s[i] != '?') i++; if (s[i]) { CHECK(s[i] == '?', "parameters follow a question mark"); for (i++; s[i]; i++) CHECK(un(s[i]) || s[i] == '&' || s[i] == '=' || s[i] == '+' || (s[i] == '%' && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0), "parameters are percent encoded"); }
    char *t = (char *)malloc(n + 1); memcpy(t, s, n + 1); zpl_adt_node y; CHECK(zpl_uri_parse(&y, t, vp_heap()) == ZPL_URI_ERROR_NONE, "what was written is valid"); eqt(x, &y); zpl_uri_free(&y); zpl_string_free(s); free(t);
}
static int dec(char const *s, int b, int e, char *o) { int n = 0; while (b < e) { char c = s[b++]; if (c == '+') c = ' '; else if (c == '%' && b + 1 < e && hx(s[b]) >= 0 && hx(s[b + 1]) >= 0) { c = (char)(hx(s[b]) * 16 + hx(s[b + 1])); b += 2; } o[n++] = c; } o[n] = 0; return n; }
static int sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static void doc(char *s, int n) {
    vp_live = 0; vp_fail_at = -1; char o[64], d[64]; memcpy(o, s, n + 1); int i = 0, k = 0, og = 0, b; while (sp(o[i])) i++; zpl_adt_node x; CHECK(zpl_uri_parse(&x, s, vp_heap()) == ZPL_URI_ERROR_NONE, "accepted"); CHECK(x.type == ZPL_ADT_TYPE_OBJECT, "an object");
    if (o[i] && o[i] != '?') { b = i; while (o[i] && o[i] != '?' && !sp(o[i])) i++; CHECK(cnt(&x) > 0 && seq(x.nodes[0].name, "__zpl_origin__") && x.nodes[0].type == ZPL_ADT_TYPE_STRING, "the origin comes first"); d[0] = 0; for (int j = b; j < i; j++) d[j - b] = o[j], d[j - b + 1] = 0; CHECK(seq(x.nodes[0].string, d) && inside(x.nodes[0].string, s, n), "the origin as it is"); k = og = 1; }
    if (o[i] == '?') for (i++; o[i] && !sp(o[i]);) { b = i; while (o[i] && o[i] != '&' && o[i] != '?' && o[i] != '=' && !sp(o[i])) i++; dec(o, b, i, d); CHECK(k < cnt(&x), "every parameter is there"); zpl_adt_node *y = x.nodes + k++; CHECK(y->parent == &x && seq(y->name, d) && inside(y->name, s, n), "parameter name decoded");
        if (o[i] == '=') { b = ++i; while (o[i] && o[i] != '&' && o[i] != '?' && !sp(o[i])) i++; dec(o, b, i, d); if (isn(y)) { CHECK(!flag(y), "a value"); int q = 0, dg = 0; for (; d[q]; q++) dg |= hx(d[q]) >= 0 && hx(d[q]) < 10; CHECK(dg, "numbers have digits"); } else CHECK(y->type == ZPL_ADT_TYPE_STRING && seq(y->string, d) && inside(y->string, s, n), "parameter value decoded"); }
        else CHECK(flag(y), "a parameter without value is a flag"); if (!o[i] || sp(o[i])) break; i++; }
    CHECK(cnt(&x) == k, "nothing else"); again(&x, og); zpl_uri_free(&x); CHECK(vp_live == 0, "everything is returned");
}
//@ x=h_bytes q="N=4,T=60;N=3" t="N=6,T=600,J=8;N=5,T=300" what="arbitrary bytes (one decimal digit only): origin and parameters are those of an independent reading, decoded; strings stay inside the text; writing and parsing again yields the same"
void h_bytes(void) { int n = nd_pick(0, N); char *s = vp_strn(n); for (int i = 0; i < n; i++) ASSUME(s[i] < '0' || s[i] > '9' || s[i] == '7'); doc(s, n); free(s); REACHED(); }
//@ x=h_text q="N=4,T=60" t="N=8,T=900,J=8;N=7,T=600;N=6" what="every query over separators, percent escapes, white space, digits and letters likewise, with and without an origin"
void h_text(void) { static char const *pre[] = { "?", "x?", "a:b ", "%d%s?q=" }; int w = nd_pick(0, 3), a = rlen(pre[w]), n = nd_pick(0, N); char *s = (char *)malloc(a + n + 1); memcpy(s, pre[w], a); for (int i = a; i < a + n; i++) { char c = s[i] = nd_char(); ASSUME(c == '&' || c == '=' || c == '?' || c == '%' || c == '+' || c == ' ' || c == '\n' || c == '2' || c == '0' || c == 'e' || c == 'x' || c == '.' || c == '-'); } s[a + n] = 0; doc(s, a + n); free(s); REACHED(); }
//@ x=h_codes q="T=40" what="every byte is decoded from its escape in either case, and every byte but the terminator survives writing and parsing"
void h_codes(void) { unsigned c = nd_in(0, 255); static char const up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef"; int k = nd_pick(0, 3); char t[] = "?a=%00z"; t[4] = (k & 1 ? up : lo)[c >> 4]; t[5] = (k & 2 ? up : lo)[c & 15]; doc(t, 7); REACHED(); }
//@ x=h_build q="SL=1,T=60" t="SL=2,T=600,J=8;SL=1" what="objects built through the API with symbolic names and strings are restored by writing and parsing"
#ifndef SL
#define SL 2
#endif
void h_build(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d; int og = nd_pick(0, 2), n = nd_pick(0, 2); CHECK(zpl_uri_init(&d, og ? og == 1 ? "http://a/%41%s" : "o" : 0, vp_heap()) == 0, "made"); char *m = vp_strn(nd_pick(0, SL)), *v = vp_strn(nd_pick(0, SL)); for (int i = 0; v[i]; i++) ASSUME(v[i] < '0' || v[i] > '9');
    for (int i = 0; i < n; i++) { char *nm = i ? "k" : m; int k = nd_pick(0, 4); if (k == 0) zpl_adt_append_str(&d, nm, v); else if (k == 1) zpl_adt_append_int(&d, nm, -7); else if (k == 2) zpl_adt_append_flt(&d, nm, 0.25); else if (k == 3) zpl_adt_append_flt(&d, nm, 1)->props = ZPL_ADT_PROPS_TRUE; else zpl_adt_append_str(&d, nm, 0); }
    again(&d, og); zpl_uri_free(&d); CHECK(vp_live == 0, "everything is returned"); free(m); free(v); REACHED();
}
//@ x=h_origin q="T=20" what="parameters carrying the reserved origin name never make writing follow a wild pointer"
void h_origin(void) { static char const *t[] = { "?__zpl_origin__", "?__zpl_origin__=5", "?__zpl_origin__=1.5&a", "o?__zpl_origin__=7&b=", "?a=1&__zpl_origin__" }; char const *c = t[nd_pick(0, 4)]; int n = rlen(c); char *s = (char *)malloc(n + 1); memcpy(s, c, n + 1); vp_live = 0; vp_fail_at = -1; zpl_adt_node x; CHECK(zpl_uri_parse(&x, s, vp_heap()) == 0, "accepted"); again(&x, 1); zpl_uri_free(&x); free(s); REACHED(); }
//@ x=h_oom q="T=40" what="allocation failure at any point of parsing or writing is reported and leaks nothing"
void h_oom(void) {
    static char const *dc = "o?a=1&b&c=x&d&e&f=2"; int n = rlen(dc), f = nd_pick(0, 6); char *t = (char *)malloc(n + 1); memcpy(t, dc, n + 1); vp_live = 0; vp_allocs = 0; vp_fail_at = f; zpl_adt_node x; int e = zpl_uri_parse(&x, t, vp_heap()); int failed = vp_allocs > f; vp_fail_at = -1; CHECK((e != 0) == failed, "reported"); zpl_uri_free(&x); CHECK(vp_live == 0, "no leak");
    memcpy(t, dc, n + 1); zpl_uri_parse(&x, t, vp_heap()); int l = vp_live; vp_allocs = 0; vp_fail_at = f; zpl_string s = zpl_uri_write_string(vp_heap(), &x); vp_fail_at = -1; if (s) zpl_string_free(s); CHECK(vp_live == l, "writing leaks nothing"); zpl_uri_free(&x); free(t); REACHED();
}
//@ x=h_large q="T=60,STEPS=120000000" t="T=300,STEPS=200000000" what="long queries: an origin, name or value of 66000 characters, 300 parameters; written, read, written again"
void h_large(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d, y; int k = nd_pick(0, 3), n = k == 3 ? 300 : nd_pick(0, 1) ? 4097 : 66000; char u = nd_char(); ASSUME(u); if (k == 0) ASSUME(un(u)); char *t = (char *)malloc(n + 1); for (int i = 0; i < n; i++) t[i] = (char)('a' + i % 26); t[n - 1] = u; t[n] = 0; static char nms[300][4]; CHECK(zpl_uri_init(&d, k == 0 ? t : "o", vp_heap()) == 0, "made");
    if (k == 1) zpl_adt_append_str(&d, t, "v"); else if (k == 2) zpl_adt_append_str(&d, "n", t); else if (k == 3) for (int i = 0; i < n; i++) { nms[i][0] = (char)('a' + i / 26); nms[i][1] = (char)('a' + i % 26); zpl_adt_append_int(&d, nms[i], i); } zpl_adt_append_str(&d, "z", "last");
    zpl_string s = zpl_uri_write_string(vp_heap(), &d); CHECK(s != 0, "written"); int l = rlen(s); char *c = (char *)malloc(l + 1); memcpy(c, s, l + 1); CHECK(zpl_uri_parse(&y, c, vp_heap()) == ZPL_URI_ERROR_NONE, "valid"); eqt(&d, &y); CHECK(inside(y.nodes[cnt(&y) - 1].string, c, l), "inside the text"); zpl_uri_free(&y); zpl_string_free(s); zpl_uri_free(&d); CHECK(vp_live == 0, "everything is returned"); free(c); free(t); REACHED();
}
//@ x=h_place q="T=20" what="the origin is written first wherever it stands among the parameters, and is no parameter itself"
void h_place(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d, y; int at = nd_pick(0, 3), n = nd_pick(0, 3), k = 0; char og[4] = "o/#"; og[1] = nd_char(); ASSUME(og[1] && og[1] != '?' && !sp(og[1])); static char const *const nm[] = { "a", "b", "c" }; ASSUME(at <= n); CHECK(zpl_uri_init(&d, 0, vp_heap()) == 0, "made");
    for (int i = 0; i <= n; i++) { if (i == at) CHECK(zpl_adt_append_str(&d, "__zpl_origin__", og) != 0, "appended"); if (i < n) CHECK(zpl_adt_append_str(&d, nm[i], i == 1 ? "" : "v") != 0, "appended"); }
    zpl_string s = zpl_uri_write_string(vp_heap(), &d); char w[32]; for (int i = 0; i < 3; i++) w[k++] = og[i]; for (int i = 0; i < n; i++) { w[k++] = i ? '&' : '?'; w[k++] = nm[i][0]; w[k++] = '='; if (i != 1) w[k++] = 'v'; } w[k] = 0; CHECK(s && seq(s, w), "origin, then every parameter once"); zpl_string_free(s); zpl_uri_free(&d); CHECK(vp_live == 0, "everything is returned"); REACHED();
}
