// P33: JSON parsing and writing
#include "vp.h"
#ifndef W
#define W 1
#endif
#ifndef NF
#define NF 3
#endif
#ifndef VF
#define VF 5
#endif
#ifndef N
#define N 4
#endif
static int close6(double a, double b) { double d = a > b ? a - b : b - a, w = a < 0 ? -a : a; return a == b || (a != a && b != b) || d <= 1.01e-6 + w * 1e-13; }
static int seq(char const *a, char const *b) { if (!a || !b) return a == b; while (*a && *a == *b) a++, b++; return *a == *b; }
static int isn(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_INTEGER || x->type == ZPL_ADT_TYPE_REAL; }
static int isb(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_OBJECT || x->type == ZPL_ADT_TYPE_ARRAY; }
static double nv(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_REAL ? x->real : (double)x->integer; }
static int word(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_REAL && (x->props == ZPL_ADT_PROPS_TRUE || x->props == ZPL_ADT_PROPS_FALSE || x->props == ZPL_ADT_PROPS_NULL || x->props == ZPL_ADT_PROPS_NAN || x->props == ZPL_ADT_PROPS_NAN_NEG || x->props == ZPL_ADT_PROPS_INFINITY || x->props == ZPL_ADT_PROPS_INFINITY_NEG) ? x->props : 0; }
static void eqt(zpl_adt_node *a, zpl_adt_node *b, int top, int named) {
    if (!top && named) CHECK(seq(a->name, b->name), "same name");
    if (isn(a)) { CHECK(isn(b) && word(a) == word(b), "same kind of value"); if (a->type == ZPL_ADT_TYPE_INTEGER && b->type == ZPL_ADT_TYPE_INTEGER) CHECK(a->integer == b->integer, "same integer"); else CHECK(close6(nv(a), nv(b)), "same number up to the printed places"); }
    else { CHECK(a->type == b->type, "same type"); if (isb(a)) { int n = (int)zpl_array_count(a->nodes); CHECK(n == zpl_array_count(b->nodes), "same number of children"); for (int i = 0; i < n; i++) eqt(a->nodes + i, b->nodes + i, 0, a->type == ZPL_ADT_TYPE_OBJECT); } else CHECK(seq(a->string, b->string), "same text"); }
}
static int inside(char const *p, char const *t, int n) { return p >= t && p <= t + n && p + rlen(p) <= t + n; }
static void shape(zpl_adt_node *x, zpl_adt_node *p, char const *t, int n) {
    CHECK(x->parent == p, "linked to its parent"); if (p) { if (p->type == ZPL_ADT_TYPE_OBJECT) CHECK(x->name && inside(x->name, t, n), "a name inside the text"); else CHECK(!x->name, "array elements have no name"); }
    if (isb(x)) for (int i = 0; i < zpl_array_count(x->nodes); i++) shape(x->nodes + i, x, t, n); else { CHECK(isn(x) || x->type == ZPL_ADT_TYPE_STRING || x->type == ZPL_ADT_TYPE_MULTISTRING, "every node has a type"); if (!isn(x)) CHECK(inside(x->string, t, n), "a string inside the text"); }
}
static void again(zpl_adt_node *x, int ind) {
    zpl_string s = zpl_json_write_string(vp_heap(), x, ind); CHECK(s != 0, "written"); int n = rlen(s); CHECK(n == zpl_string_length(s), "no terminator inside"); char *t = (char *)malloc(n + 1); memcpy(t, s, n + 1); zpl_adt_node y; CHECK(zpl_json_parse(&y, t, vp_heap()) == ZPL_JSON_ERROR_NONE, "what was written is valid"); eqt(x, &y, 1, 0); zpl_json_free(&y); zpl_string_free(s); free(t);
}
static int quiet(zpl_adt_node *x) { if (isb(x)) { for (int i = 0; i < zpl_array_count(x->nodes); i++) if (!quiet(x->nodes + i)) return 0; } return 1; }
static void doc(char *s, int n) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node x; int e = zpl_json_parse(&x, s, vp_heap());
    if (e == ZPL_JSON_ERROR_NONE) { CHECK(isb(&x), "the document is an object or an array"); shape(&x, 0, s, n);
#ifdef AGAIN
        if (quiet(&x)) { again(&x, ZPL_JSON_INDENT_STYLE_COMPACT); again(&x, 0); again(&x, 4); }
#endif
    } else CHECK(e >= ZPL_JSON_ERROR_INTERNAL && e <= ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED, "an error code");
    zpl_json_free(&x); CHECK(vp_live == 0, "everything is returned");
}
static char *text(int n, char const *al) { char *s = (char *)malloc((size_t)n + 1); for (int i = 0; i < n; i++) { s[i] = nd_char(); int ok = 0; for (int j = 0; al[j]; j++) ok |= s[i] == al[j]; ASSUME(ok); } s[n] = 0; return s; }
//@ x=h_bytes q="N=5,T=60;N=4" t="N=7,T=600,J=8;N=6" what="arbitrary bytes: terminates with an error or a well-formed tree, never leaves the text, returns everything"
void h_bytes(void) { int n = nd_pick(0, N); char *s = vp_strn(n); doc(s, n); free(s); REACHED(); }
//@ x=h_text q="N=8,T=60;N=6,T=60" t="N=9,T=900,J=8;N=8,T=400" what="every text over the JSON alphabet, likewise"
void h_text(void) { int n = nd_pick(0, N); char *s = text(n, "{}[]\"'`:,=|\\a0-.e/* \n"); doc(s, n); free(s); REACHED(); }
//@ x=h_in q="N=4,AGAIN=1,T=90;N=3,AGAIN=1" t="N=5,AGAIN=1,T=900,J=8;N=4,AGAIN=1,T=400" what="every text inside {\"a\":...}, {a:[...]} and cfg documents a=...: as above, and writing an accepted tree and parsing it again yields an equal tree"
void h_in(void) {
    static char const *pre[] = { "{\"a\":", "{a:[", "a=", "[{b:1},", "{a:1,/*", "{'", "a={c:1}" }, *post[] = { "}", "]}", "\nb=2", "]", "}", ":2}", "b={}" }; int w = nd_pick(0, 6), n = nd_pick(0, N), a = rlen(pre[w]), b = rlen(post[w]), cut = nd_pick(0, 1) ? b : 0; char *t = text(n, "{}[]\"'`:,=|\\a01-.e/* \n"), *s = (char *)malloc(a + n + cut + 1); memcpy(s, pre[w], a); memcpy(s + a, t, n); memcpy(s + a + n, post[w], cut); s[a + n + cut] = 0; free(t); doc(s, a + n + cut); free(s); REACHED();
}
/* ---- valid documents generated together with the tree they denote */
static char *q; static char store[64]; static int sn;
static void put(char const *s) { while (*s) *q++ = *s++; }
static void ws(void) { static char const *w[] = { "", " ", "\n", "//c\n", "/* * */", "/**/ ", "\t\r\n" }; put(w[nd_pick(0, W)]); }
static char *sym(int n, char const *no) { char *p = store + sn; for (int i = 0; i < n; i++) { char c = nd_char(); ASSUME(c && c != '\\'); for (int j = 0; no[j]; j++) ASSUME(c != no[j]); *q++ = store[sn++] = c; } store[sn++] = 0; return p; }
static char *name(void) {
    int k = nd_pick(0, NF); if (k == 0) { *q++ = '"'; char *p = sym(NF < 3 ? 1 : nd_pick(0, 1), "\""); *q++ = '"'; return p; } if (k == 1) { *q++ = '\''; char *p = sym(1, "'"); *q++ = '\''; return p; } char *p = store + sn; char c = nd_char(); ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$'); *q++ = store[sn++] = c; if (k == 3) { c = nd_char(); ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9')); *q++ = store[sn++] = c; } store[sn++] = 0; return p;
}
static void value(zpl_adt_node *p, char *nm, int depth) {
    static char const *kw[] = { "true", "false", "null", "Infinity", "-Infinity", "NaN", "-NaN" }; static int const kp[] = { ZPL_ADT_PROPS_TRUE, ZPL_ADT_PROPS_FALSE, ZPL_ADT_PROPS_NULL, ZPL_ADT_PROPS_INFINITY, ZPL_ADT_PROPS_INFINITY_NEG, ZPL_ADT_PROPS_NAN, ZPL_ADT_PROPS_NAN_NEG };
    int k = nd_pick(0, depth ? 6 : 4); zpl_adt_node *x;
    if (k == 0) { int f = nd_pick(0, VF); static char const *nt[] = { "7", "-12", "0x1F", "1e3", "1.5", "-.25" }; static double const nvv[] = { 7, -12, 31, 1000, 1.5, -0.25 }; put(nt[f]); if (f < 4) zpl_adt_append_int(p, nm, (zpl_i64)nvv[f]); else zpl_adt_append_flt(p, nm, nvv[f]); }
    else if (k == 1) { *q++ = '"'; char *s = sym(VF < 5 ? 1 : nd_pick(0, 2), "\""); *q++ = '"'; zpl_adt_append_str(p, nm, s); }
    else if (k == 2) { *q++ = '\''; char *s = sym(1, "'"); *q++ = '\''; zpl_adt_append_str(p, nm, s); }
    else if (k == 3) { *q++ = '`'; char *s = sym(1, "`"); *q++ = '\\'; *q++ = '`'; sn--; store[sn++] = '`'; store[sn++] = 0; *q++ = '`'; x = zpl_adt_append_str(p, nm, s); x->type = ZPL_ADT_TYPE_MULTISTRING; }
    else if (k == 4) { int f = VF < 5 ? 0 : nd_pick(0, 6); put(kw[f]); x = zpl_adt_append_flt(p, nm, f == 0 ? 1 : f == 3 ? ZPL_INFINITY : f == 4 ? -ZPL_INFINITY : f >= 5 ? ZPL_NAN : 0); x->props = kp[f]; }
    else { int n = nd_pick(0, 2), tr = nd_pick(0, 1); *q++ = k == 5 ? '[' : '{'; x = k == 5 ? zpl_adt_append_arr(p, nm) : zpl_adt_append_obj(p, nm); for (int i = 0; i < n; i++) { char *m = 0; ws(); if (k == 6) { m = name(); *q++ = ':'; } value(x, m, depth - 1); x = p->nodes + zpl_array_count(p->nodes) - 1; if (i + 1 < n || tr) *q++ = ','; } ws(); *q++ = k == 5 ? ']' : '}'; }
}
#ifndef DEPTH
#define DEPTH 0
#endif
//@ x=h_doc q="W=1,PAIRS=1,T=90" t="W=4,PAIRS=2,T=900,J=8;W=6,PAIRS=1" what="valid flat documents with every name form, assignment, delimiter, comment, white space and value form yield exactly the tree they denote; names and strings symbolic"
#ifndef PAIRS
#define PAIRS 1
#endif
static void gen(void) {
    static char b[256]; q = b; sn = 0; vp_live = 0; vp_fail_at = -1; zpl_adt_node d = { 0 }, y; int top = nd_pick(0, 2), n = nd_pick(top == 2 ? 1 : 0, PAIRS); if (top == 1) zpl_adt_set_arr(&d, 0, vp_heap()); else zpl_adt_set_obj(&d, 0, vp_heap());
    if (top < 2) { ws(); *q++ = top ? '[' : '{'; } for (int i = 0; i < n; i++) { char *m = 0; if (i) { static char const *dl[] = { ",", "\n", "|" }; put(top == 1 ? "," : dl[nd_pick(0, 2)]); } ws(); if (top != 1) { m = name(); ws(); static char const *as[] = { ":", "=", "|" }; put(as[nd_pick(0, 2)]); ws(); } value(&d, m, DEPTH); } if (top < 2) { ws(); *q++ = top ? ']' : '}'; } ws(); *q = 0;
    char *t = (char *)malloc(q - b + 1); memcpy(t, b, q - b + 1); int e = zpl_json_parse(&y, t, vp_heap()); CHECK(e == ZPL_JSON_ERROR_NONE, "a valid document is accepted"); eqt(&d, &y, 1, 0); shape(&y, 0, t, (int)(q - b)); zpl_json_free(&y); zpl_adt_destroy_branch(&d); CHECK(vp_live == 0, "everything is returned"); free(t); REACHED();
}
void h_doc(void) { gen(); }
//@ x=h_nest q="W=0,PAIRS=1,DEPTH=1,NF=1,VF=0,T=90" t="W=0,PAIRS=1,DEPTH=2,NF=0,VF=0,T=900,J=8;W=1,PAIRS=1,DEPTH=1,NF=2,VF=1,T=300" what="valid nested documents likewise"
void h_nest(void) { gen(); }
//@ x=h_write q="T=90" t="SL=2,T=400,J=8" what="trees built through the API with symbolic names, strings and integers, of every shape up to three nodes: writing (compact, plain, indented) and parsing yields an equal tree"
#ifndef SL
#define SL 1
#endif
static char *plain(int n) { char *s = (char *)malloc(n + 1); for (int i = 0; i < n; i++) { s[i] = nd_char(); ASSUME(s[i] && s[i] != '\\'); } s[n] = 0; return s; }
void h_write(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d = { 0 }; int top = nd_pick(0, 1), n = nd_pick(0, 2), c0 = 0; if (top) zpl_adt_set_arr(&d, 0, vp_heap()); else zpl_adt_set_obj(&d, 0, vp_heap()); char *nm = plain(nd_pick(0, SL)), *tx = plain(nd_pick(0, SL)); int ind[] = { ZPL_JSON_INDENT_STYLE_COMPACT, 0, 4 }; (void)c0; for (int i = 0; nm[i]; i++) ASSUME(nm[i] != '"');
    for (int i = 0; i < n; i++) { char *m = top ? 0 : i ? "k" : nm; int k = nd_pick(0, 5); zpl_adt_node *x; if (k == 0) x = zpl_adt_append_str(&d, m, tx); else if (k == 1) x = zpl_adt_append_int(&d, m, nd_pick(0, 30) - 10); else if (k == 2) x = zpl_adt_append_flt(&d, m, nd_pick(0, 8) * 0.25 - 1); else { x = k == 3 ? zpl_adt_append_obj(&d, m) : zpl_adt_append_arr(&d, m); int j = nd_pick(0, 2); if (k == 5 && j) { x = zpl_adt_append_arr(x, 0); zpl_adt_append_int(x, 0, 5); x = zpl_adt_append_obj(x, 0); zpl_adt_append_str(x, "z", tx); j = 0; } for (; j > 0; j--) if (nd_pick(0, 1)) zpl_adt_append_str(x, k == 3 ? "s" : 0, tx); else zpl_adt_append_int(x, k == 3 ? "i" : 0, 3); } }
    again(&d, ind[nd_pick(0, 2)]); zpl_adt_destroy_branch(&d); CHECK(vp_live == 0, "no leak"); free(nm); free(tx); REACHED();
}
//@ x=h_oom q="T=60" what="allocation failure at any point of parsing or writing is reported, leaks nothing, and the text can be parsed again"
void h_oom(void) {
    static char const *docs[] = { "{\"a\":[1,{b:'x'}],c:{d:{}}}", "x=1\ny=[[[`s`]]]", "[{},[],\"q\\\"r\",{'a':true}]" }; char const *dc = docs[nd_pick(0, 2)]; int n = rlen(dc), f = nd_pick(0, 7); char *t = (char *)malloc(n + 1); memcpy(t, dc, n + 1); vp_live = 0; vp_allocs = 0; vp_fail_at = f; zpl_adt_node x; int e = zpl_json_parse(&x, t, vp_heap()); int failed = vp_allocs > f; vp_fail_at = -1;
    CHECK(e == (failed ? ZPL_JSON_ERROR_OUT_OF_MEMORY : ZPL_JSON_ERROR_NONE), "reported"); zpl_json_free(&x); CHECK(vp_live == 0, "no leak"); if (failed) { CHECK(zpl_json_parse(&x, t, vp_heap()) == 0, "parsed again"); zpl_json_free(&x); }
    memcpy(t, dc, n + 1); zpl_json_parse(&x, t, vp_heap()); int l = vp_live; vp_allocs = 0; vp_fail_at = f; zpl_string s = zpl_json_write_string(vp_heap(), &x, 0); vp_fail_at = -1; if (s) zpl_string_free(s); CHECK(vp_live == l, "writing leaks nothing"); zpl_json_free(&x); free(t); REACHED();
}
//@ x=h_escape known=json_escape reach=0 q="T=20" what="strings with a backslash before their end or a quote, and names with quotes or backslashes, survive writing and parsing"
void h_escape(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d = { 0 }, y; zpl_adt_set_obj(&d, 0, vp_heap()); int k = nd_pick(0, 3); zpl_adt_append_str(&d, k == 2 ? "x\"y" : k == 3 ? "x\\" : "a", k == 0 ? "x\\" : k == 1 ? "x\\\"y" : "s"); zpl_string s = zpl_json_write_string(vp_heap(), &d, ZPL_JSON_INDENT_STYLE_COMPACT); CHECK(zpl_json_parse(&y, s, vp_heap()) == ZPL_JSON_ERROR_NONE, "what was written is valid"); eqt(&d, &y, 1, 0);
}
//@ x=h_large q="T=60,STEPS=30000000" t="T=300,STEPS=60000000" what="long documents: strings, names and comments of 70000 characters, arrays and objects of 300 elements, nesting 100 deep; read, written and read again"
void h_large(void) {
    vp_live = 0; vp_fail_at = -1; zpl_adt_node d = { 0 }; int k = nd_pick(0, 4), n = k == 3 ? 100 : k >= 2 ? 300 : nd_pick(0, 1) ? 4097 : 70000; char u = nd_char(); ASSUME(u && u != '"' && u != '\\'); char *t = (char *)malloc(n + 1); for (int i = 0; i < n; i++) t[i] = (char)('a' + i % 26); t[n - 1] = u; t[n] = 0; zpl_adt_set_obj(&d, 0, vp_heap()); static char nms[300][4];
    if (k == 0) zpl_adt_append_str(&d, "s", t); else if (k == 1) { zpl_adt_append_int(&d, t, 5); zpl_adt_append_int(&d, "z", 6); } else if (k == 2) { zpl_adt_node *x = zpl_adt_append_arr(&d, "a"); for (int i = 0; i < n; i++) zpl_adt_append_int(x, 0, i - 5); } else if (k == 3) { zpl_adt_node *x = zpl_adt_append_arr(&d, "a"); for (int i = 0; i < n; i++) { zpl_adt_append_int(x, 0, i); x = zpl_adt_append_arr(x, 0); } } else { for (int i = 0; i < n; i++) { nms[i][0] = (char)('a' + i / 26); nms[i][1] = (char)('a' + i % 26); zpl_adt_append_int(&d, nms[i], i); } }
    zpl_string s = zpl_json_write_string(vp_heap(), &d, nd_pick(0, 1) ? ZPL_JSON_INDENT_STYLE_COMPACT : 4); CHECK(s != 0, "written"); int l = rlen(s); char *c = (char *)malloc(l + n + 8); int cm = nd_pick(0, 1) ? n : 0, o = 0; if (cm) { c[o++] = '/'; c[o++] = '*'; for (int i = 0; i < n - 1; i++) c[o++] = t[i]; c[o++] = '*'; c[o++] = '/'; } memcpy(c + o, s, l + 1); zpl_adt_node y; CHECK(zpl_json_parse(&y, c, vp_heap()) == ZPL_JSON_ERROR_NONE, "what was written is valid"); eqt(&d, &y, 1, 0); zpl_json_free(&y); zpl_string_free(s); zpl_adt_destroy_branch(&d); CHECK(vp_live == 0, "everything is returned"); free(c); free(t); REACHED();
}
//@ x=h_words q="T=40" what="the words for special numbers, alone or in lists and objects, followed by anything allowed, denote their values, and other spellings are not taken for them"
void h_words(void) {
    static char const *const kw[7] = { "true", "false", "null", "Infinity", "-Infinity", "NaN", "-NaN" }; static int const kp[7] = { ZPL_ADT_PROPS_TRUE, ZPL_ADT_PROPS_FALSE, ZPL_ADT_PROPS_NULL, ZPL_ADT_PROPS_INFINITY, ZPL_ADT_PROPS_INFINITY_NEG, ZPL_ADT_PROPS_NAN, ZPL_ADT_PROPS_NAN_NEG }; static char const *const sep[4] = { "", " ", "\n", "/**/" };
    char t[96]; int f[2] = { nd_pick(0, 6), nd_pick(0, 6) }, list = nd_pick(0, 1); t[0] = 0; strcat(t, list ? "[" : "{a:"); strcat(t, kw[f[0]]); strcat(t, sep[nd_pick(0, 3)]); strcat(t, list ? "," : ",b:"); strcat(t, sep[nd_pick(0, 3)]); strcat(t, kw[f[1]]); strcat(t, sep[nd_pick(0, 3)]); strcat(t, list ? "]" : "}");
    zpl_adt_node o; CHECK(zpl_json_parse(&o, t, zpl_heap()) == ZPL_JSON_ERROR_NONE && zpl_array_count(o.nodes) == 2, "accepted");
    for (int i = 0; i < 2; i++) { zpl_adt_node *x = o.nodes + i; double r = x->real; CHECK(x->type == ZPL_ADT_TYPE_REAL && x->props == kp[f[i]], "kind"); int w = f[i]; if (w == 0) CHECK(r == 1, "true is one"); else if (w == 1 || w == 2) CHECK(r == 0, "false and null are zero"); else if (w == 3) CHECK(r > 1e300, "infinity"); else if (w == 4) CHECK(r < -1e300, "negative infinity"); else CHECK(r != r, "not a number"); }
    zpl_json_free(&o); REACHED();
}
#include "vp_memfile.h"
//@ x=h_file q="T=60" what="writing to a file puts there exactly the text, in every style, and a write that fails, whichever it is, makes the whole writing fail"
void h_file(void) {
    static char const *const D[4] = { "{}", "{a: 1, 'b': [1, -2.5, \"x\"], c = {d: true}}", "[{}, [null, `m`], \"q\"]", "a: 1\nb | {c: NaN}\n" }; char t[80]; strcpy(t, D[nd_pick(0, 3)]); zpl_adt_node x; vp_fail_at = -1; CHECK(zpl_json_parse(&x, t, zpl_heap()) == ZPL_JSON_ERROR_NONE, "accepted"); int how = nd_pick(0, 2); zpl_isize ind = how == 0 ? ZPL_JSON_INDENT_STYLE_COMPACT : how == 1 ? 0 : 4;
    zpl_string s = zpl_json_write_string(zpl_heap(), &x, ind); CHECK(s != 0, "written"); zpl_file f; mf_open(&f, -1); CHECK(zpl_json_write(&f, &x, ind), "written"); CHECK(!mf_bad_ && mf_n_ == zpl_string_length(s) && mf_pos_ == mf_n_ && !memcmp(mf_, s, mf_n_), "the same text"); int w = mf_writes_, k = nd_pick(0, 40); ASSUME(k < w); mf_open(&f, k); CHECK(!zpl_json_write(&f, &x, ind), "a failed write is reported"); CHECK(mf_writes_ == k + 1 && !mf_bad_ && mf_n_ <= zpl_string_length(s) && !memcmp(mf_, s, mf_n_), "nothing after the failed write"); zpl_string_free(s); zpl_json_free(&x); REACHED();
}
