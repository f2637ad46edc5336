// P34: CSV parsing and writing
#include "vp.h"
#ifndef N
#define N 5
#endif
#ifndef R
#define R 2
#endif
#ifndef C
#define C 2
#endif
#ifndef CL
#define CL 1
#endif
#ifndef FORMS
#define FORMS 5
#endif
static int close6(double a, double b) { double d = a > b ? a - b : b - a, w = a < 0 ? -a : a; return a == b || d <= 1.01e-6 + w * 1e-13; }
static int seq(char const *a, char const *b) { if (!a || !b) return a == b; while (*a && *a == *b) a++, b++; return *a == *b; }
static int isn(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_INTEGER || x->type == ZPL_ADT_TYPE_REAL; }
static double nv(zpl_adt_node *x) { return x->type == ZPL_ADT_TYPE_REAL ? x->real : (double)x->integer; }
static int ncol(zpl_adt_node *t) { return (int)zpl_array_count(t->nodes); }
static int nrow(zpl_adt_node *t) { return (int)zpl_array_count(t->nodes[0].nodes); }
static zpl_adt_node *cell(zpl_adt_node *t, int r, int c) { return t->nodes[c].nodes + r; }
static int inside(char const *p, char const *t, int n) { return !*p || (p >= t && p <= t + n && p + rlen(p) <= t + n); }
static void shape(zpl_adt_node *t, char const *s, int n, int hd) {
    CHECK(ncol(t) > 0, "has columns"); CHECK(t->type == (hd ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY) && !t->parent, "an object of named or an array of plain columns"); for (int c = 0; c < ncol(t); c++) { zpl_adt_node *k = t->nodes + c; CHECK(k->type == ZPL_ADT_TYPE_ARRAY && k->parent == t && zpl_array_count(k->nodes) == nrow(t), "columns have the same number of rows"); CHECK(hd ? k->name && inside(k->name, s, n) : !k->name, "names come from the header"); for (int r = 0; r < nrow(t); r++) { zpl_adt_node *x = k->nodes + r; CHECK(x->parent == k && (isn(x) || (x->type == ZPL_ADT_TYPE_STRING && inside(x->string, s, n))), "cells are numbers or strings inside the text"); } }
}
static void eqt(zpl_adt_node *a, zpl_adt_node *b) {
    CHECK(ncol(a) == ncol(b) && nrow(a) == nrow(b), "same table size"); for (int c = 0; c < ncol(a); c++) { CHECK(seq(a->nodes[c].name, b->nodes[c].name), "same column name"); for (int r = 0; r < nrow(a); r++) { zpl_adt_node *x = cell(a, r, c), *y = cell(b, r, c); CHECK(isn(x) == isn(y), "same kind of cell"); if (isn(x)) CHECK(close6(nv(x), nv(y)), "same number up to the printed places"); else CHECK(seq(x->string, y->string), "same text"); } }
}
static void again(zpl_adt_node *x, int hd, char dl) {
    zpl_string s = zpl_csv_write_string_delimiter(vp_heap(), x, dl); CHECK(s != 0, "written"); int n = rlen(s); CHECK(n == zpl_string_length(s), "no terminator inside"); char *t = (char *)malloc(n + 1); memcpy(t, s, n + 1); zpl_adt_node y; int e = zpl_csv_parse_delimiter(&y, t, vp_heap(), hd, dl); CHECK(e == (nrow(x) || hd ? ZPL_CSV_ERROR_NONE : ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT), "what was written is valid"); if (!e) eqt(x, &y); zpl_csv_free(&y); zpl_string_free(s); free(t);
}
/* ---- an independent reading: number of columns and rows (0 columns: not a table) and where each field starts and ends */
static int rc, rr, rq[64], rs[64], re[64], rn;
static int blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static void ref(char const *s, char dl) {
    int i = 0, c = 0; rc = 0; rr = 0; rn = 0;
    for (;;) {
        if (!c) while (s[i] != dl && (blank(s[i]) || s[i] == '\n')) i++; else while (s[i] != dl && blank(s[i])) i++;
        if (!s[i] && !c) return; int b = i, e; rq[rn] = s[i] == '"';
        if (s[i] == '"') { b = ++i; while (s[i] && (s[i] != '"' || s[i + 1] == '"')) i += s[i] == '"' ? 2 : 1; if (!s[i]) { rc = 0; return; } e = i++; while (s[i] != dl && blank(s[i])) i++; if (s[i] && s[i] != dl && s[i] != '\n') { rc = 0; return; } }
        else { while (s[i] && s[i] != dl && s[i] != '\n') i++; e = i; while (e > b && (blank(s[e - 1]))) e--; }
        rs[rn] = b; re[rn++] = e; c++;
        if (s[i] == dl) { i++; continue; } if (!rr) rc = c; else if (rc != c) { rc = 0; return; } rr++; c = 0; if (!s[i]) return; i++;
    }
}
static void doc(char *s, int n, char dl) {
    vp_live = 0; vp_fail_at = -1; int hd = nd_pick(0, 1); char o[64]; memcpy(o, s, n + 1); ref(o, dl); zpl_adt_node x; int e = zpl_csv_parse_delimiter(&x, s, vp_heap(), hd, dl); CHECK((e == ZPL_CSV_ERROR_NONE) == (rc > 0), "accepts exactly well-formed tables");
    if (!e) { shape(&x, s, n, hd); CHECK(ncol(&x) == rc && nrow(&x) == rr - hd, "as many rows and columns as the text has"); for (int r = 0; r < rr; r++) for (int c = 0; c < rc; c++) { int k = r * rc + c; zpl_adt_node *y = r < hd ? 0 : cell(&x, r - hd, c); if (y && isn(y)) { CHECK(!rq[k] && re[k] > rs[k], "only plain fields are numbers"); continue; } char const *v = y ? y->string : x.nodes[c].name; int j = rs[k]; for (; *v; v++, j++) { CHECK(j < re[k] && *v == o[j], "the field's text"); if (rq[k] && *v == '"') j++; } CHECK(j == re[k], "the whole field"); } again(&x, hd, dl); }
    zpl_csv_free(&x); CHECK(vp_live == 0, "everything is returned");
}
//@ x=h_bytes q="N=4,T=40;N=3" t="N=6,T=600,J=8;N=5,T=300" what="arbitrary bytes (one digit only): accepted exactly when an independent reading finds a table, with the same fields; strings stay inside the text; writing and parsing again yields the same table; everything is returned"
void h_bytes(void) { int n = nd_pick(0, N); char *s = vp_strn(n); for (int i = 0; i < n; i++) ASSUME(s[i] < '0' || s[i] > '9' || s[i] == '7'); doc(s, n, ','); free(s); REACHED(); }
//@ x=h_text q="N=5,T=60;N=4" t="N=7,T=900,J=8;N=6,T=600;N=5" what="every text over delimiters, quotes, line ends, white space, digits and letters likewise, with comma, tab and bar as the delimiter"
void h_text(void) { int n = nd_pick(0, N); char *s = (char *)malloc((size_t)n + 1), dl = ",\t|"[nd_pick(0, 2)]; for (int i = 0; i < n; i++) { s[i] = nd_char(); char c = s[i]; ASSUME(c == dl || c == '"' || c == '\n' || c == ' ' || c == '\r' || c == '\t' || c == '1' || c == 'e' || c == 'x' || c == '-'); } s[n] = 0; doc(s, n, dl); free(s); REACHED(); }
//@ x=h_table q="R=2,C=2,T=60,FORMS=3,CL=1;R=2,C=2,FORMS=2,CL=1" t="R=2,C=3,CL=2,T=900,J=8;R=3,C=2,FORMS=4,T=400;R=2,C=2" what="every table of plain, quoted, empty and numeric fields with symbolic text, line ends, padding and blank lines yields exactly its cells, with and without a header"
static char *q; static char store[64]; static int sn;
static void table(void) {
    static char b[128]; q = b; sn = 0; vp_live = 0; vp_fail_at = -1; int rows = nd_pick(1, R), cols = nd_pick(1, C), hd = nd_pick(0, 1), eol = nd_pick(0, 2), last = nd_pick(0, 1); char dl = ",;|\t"[nd_pick(0, 1) * 3]; static zpl_adt_node want[16]; static char const *nt[] = { "12", "-3", "1.5" }; static double const nn[] = { 12, -3, 1.5 };
    for (int r = 0; r < rows; r++) { for (int c = 0; c < cols; c++) { zpl_adt_node *x = want + r * cols + c; memset(x, 0, sizeof *x); x->type = ZPL_ADT_TYPE_STRING; int k = nd_pick(cols == 1, FORMS); char *p = store + sn; x->string = p; if (c) *q++ = dl;
            if (k == 0) { *p = 0; sn++; } else if (k == 1) { char ch = nd_char(); ASSUME((ch >= 'g' && ch <= 'z') || (signed char)ch < 0 || ch == '\'' || ch == '/'); *q++ = store[sn++] = ch; store[sn++] = 0; }
            else if (k <= 3) { int l = k == 2 ? CL : 0; *q++ = '"'; for (int i = 0; i < l; i++) { char ch = nd_char(); ASSUME(ch); store[sn++] = ch; *q++ = ch; if (ch == '"') *q++ = ch; } store[sn++] = 0; *q++ = '"'; }
            else if (k == 4) { int f = nd_pick(0, 2); for (char const *z = nt[f]; *z; z++) *q++ = store[sn++] = *z; store[sn++] = 0; if (!(hd && !r)) { x->type = ZPL_ADT_TYPE_REAL; x->real = nn[f]; } }
            else { *q++ = ' '; *q++ = store[sn++] = 'h'; *q++ = store[sn++] = ' '; *q++ = store[sn++] = '"'; store[sn++] = 0; *q++ = ' '; } }
        if (r + 1 < rows || last) { if (eol == 1) *q++ = '\r'; *q++ = '\n'; if (eol == 2) *q++ = '\n'; } }
    *q = 0; char *t = (char *)malloc(q - b + 1); memcpy(t, b, q - b + 1); zpl_adt_node y; CHECK(zpl_csv_parse_delimiter(&y, t, vp_heap(), hd, dl) == ZPL_CSV_ERROR_NONE, "a table is accepted"); shape(&y, t, (int)(q - b), hd); CHECK(ncol(&y) == cols && nrow(&y) == rows - hd, "the table's size");
    for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) { zpl_adt_node *x = want + r * cols + c; if (hd && !r) { CHECK(seq(y.nodes[c].name, x->string), "column name"); continue; } zpl_adt_node *z = cell(&y, r - hd, c); if (x->type == ZPL_ADT_TYPE_REAL) CHECK(isn(z) && nv(z) == x->real, "number"); else CHECK(z->type == ZPL_ADT_TYPE_STRING && seq(z->string, x->string), "text"); }
    again(&y, hd, dl); zpl_csv_free(&y); CHECK(vp_live == 0, "everything is returned"); free(t); REACHED();
}
void h_table(void) { table(); }
//@ x=h_fields q="R=1,C=2,T=60,FORMS=5,CL=2" t="R=2,C=1,FORMS=5,CL=2,T=400,J=8;R=1,C=2,CL=2" what="likewise one record of every form of field"
void h_fields(void) { table(); }
//@ x=h_build q="T=60" t="CL=2,T=300,J=8" what="tables built through the API with symbolic strings and names are restored by writing and parsing"
void h_build(void) {
    vp_live = 0; vp_fail_at = -1; int hd = nd_pick(0, 1), rows = nd_pick(hd ? 0 : 1, 2), cols = nd_pick(1, 2), v = nd_pick(0, CL); zpl_adt_node d = { 0 }; if (hd) zpl_adt_set_obj(&d, 0, vp_heap()); else zpl_adt_set_arr(&d, 0, vp_heap()); char *s = vp_strn(v), *m = vp_strn(1);
    for (int c = 0; c < cols; c++) { zpl_adt_node *k = zpl_adt_append_arr(&d, hd ? c ? "k" : m : 0); for (int r = 0; r < rows; r++) if (r == c) zpl_adt_append_str(k, 0, s); else if (nd_pick(0, 1)) zpl_adt_append_int(k, 0, -7); else zpl_adt_append_flt(k, 0, 0.25); }
    again(&d, hd, ','); zpl_adt_destroy_branch(&d); CHECK(vp_live == 0, "everything is returned"); free(s); free(m); REACHED();
}
//@ x=h_oom q="T=40" what="allocation failure at any point of parsing or writing is reported and leaks nothing"
void h_oom(void) {
    static char const *dc = "a,b,c,d,e\n1,\"x\",,4,5\n1,2,3,4,5\n"; int n = rlen(dc), f = nd_pick(0, 14), hd = nd_pick(0, 1); char *t = (char *)malloc(n + 1); memcpy(t, dc, n + 1); vp_live = 0; vp_allocs = 0; vp_fail_at = f; zpl_adt_node x; int e = zpl_csv_parse(&x, t, vp_heap(), hd); int failed = vp_allocs > f; vp_fail_at = -1; CHECK((e != 0) == failed, "reported"); zpl_csv_free(&x); CHECK(vp_live == 0, "no leak");
    memcpy(t, dc, n + 1); zpl_csv_parse(&x, t, vp_heap(), hd); int l = vp_live; vp_allocs = 0; vp_fail_at = f; zpl_string s = zpl_csv_write_string(vp_heap(), &x); vp_fail_at = -1; if (s) zpl_string_free(s); CHECK(vp_live == l, "writing leaks nothing"); zpl_csv_free(&x); free(t); REACHED();
}
//@ x=h_large q="T=60,STEPS=30000000" t="T=300,STEPS=60000000" what="long tables: a field of 70000 characters, 300 rows, 300 columns; read, written and read again"
void h_large(void) {
    vp_live = 0; vp_fail_at = -1; int k = nd_pick(0, 2), rows = k == 1 ? 300 : 2, cols = k == 2 ? 300 : 2, n = k ? 3 : nd_pick(0, 1) ? 4097 : 70000, qu = nd_pick(0, 1), hd = nd_pick(0, 1); char u = nd_char(); ASSUME(u && u != '"' && (u >= 'a' || (signed char)u < 0)); char *t = (char *)malloc(n + rows * cols * 8 + 16); int o = 0, j = 0; static zpl_adt_node y;
    for (int r = 0; r < rows; r++) { for (int c = 0; c < cols; c++) { if (c) t[o++] = ','; if (r == 1 && c == 1) { if (qu) t[o++] = '"'; j = o; for (int i = 0; i < n; i++) t[o++] = (char)('a' + i % 26); t[o - 1] = u; if (qu) t[o++] = '"'; } else { int v = 100 + (r * cols + c) % 900; t[o++] = (char)('0' + v / 100); t[o++] = (char)('0' + v / 10 % 10); t[o++] = (char)('0' + v % 10); } } t[o++] = '\n'; } t[o] = 0; char *e = (char *)malloc(o + 1); memcpy(e, t, o + 1);
    CHECK(zpl_csv_parse(&y, e, vp_heap(), hd) == ZPL_CSV_ERROR_NONE, "accepted"); CHECK(ncol(&y) == cols && nrow(&y) == rows - hd, "the table's size"); for (int r = hd; r < rows; r++) for (int c = 0; c < cols; c++) { zpl_adt_node *x = cell(&y, r - hd, c); if (r == 1 && c == 1) { CHECK(x->type == ZPL_ADT_TYPE_STRING && rlen(x->string) == n && !memcmp(x->string, t + j, n), "the long field"); } else CHECK(isn(x) && nv(x) == 100 + (r * cols + c) % 900, "the numbers"); }
    again(&y, hd, ','); zpl_csv_free(&y); CHECK(vp_live == 0, "everything is returned"); free(e); free(t); REACHED();
}
#include "vp_memfile.h"
//@ x=h_file q="T=60" what="writing to a file puts there exactly the text of the table, with any delimiter"
void h_file(void) {
    static char const *const D[4] = { "a\n", "a,b\n1,2\n", "\"x\"\"y\",,z\n1,2.5,\"q,r\"\n", "1,2\n3,4\n5,6\n" }; char t[80]; strcpy(t, D[nd_pick(0, 3)]); int hd = nd_pick(0, 1); zpl_adt_node x; vp_fail_at = -1; CHECK(zpl_csv_parse(&x, t, zpl_heap(), hd) == ZPL_CSV_ERROR_NONE, "accepted"); char dl = ",;"[nd_pick(0, 1)]; zpl_string s = zpl_csv_write_string_delimiter(zpl_heap(), &x, dl); zpl_file f; mf_open(&f, -1); if (dl == ',') zpl_csv_write(&f, &x); else zpl_csv_write_delimiter(&f, &x, dl);
    CHECK(s && !mf_bad_ && mf_n_ == zpl_string_length(s) && mf_pos_ == mf_n_ && !memcmp(mf_, s, mf_n_), "the same text"); if (dl == ',') { zpl_string u = zpl_csv_write_string(zpl_heap(), &x); CHECK(u && zpl_string_are_equal(s, u), "the usual delimiter"); zpl_string_free(u); } zpl_string_free(s); zpl_csv_free(&x); REACHED();
}
