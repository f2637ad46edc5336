// P30: command-line options
#include "vp.h"
#ifndef AC
#define AC 2
#endif
#ifndef N
#define N 3
#endif
static int seq(char const *a, char const *b) { if (!a || !b) return a == b; while (*a && *a == *b) a++, b++; return *a == *b; }
enum { NO = 5 };
static char const *sn[NO] = { "f", "s", "i", "x", 0 }, *ln[NO] = { "fl", "st", "it", 0, "d" }; static int ty[NO] = { ZPL_OPTS_FLAG, ZPL_OPTS_STRING, ZPL_OPTS_INT, ZPL_OPTS_STRING, ZPL_OPTS_FLOAT };
/* ---- independent reading of a command line */
static int met[NO], pend[4], np, ne, et[8]; static char val[NO][16], ev[8][16];
static void cp(char *o, char const *s, int n) { for (int i = 0; i < n; i++) o[i] = s[i]; o[n] = 0; }
static void give(int o, char const *v) { met[o] = 1; cp(val[o], v, rlen(v)); for (int i = 0; i < np; i++) if (pend[i] == o) { for (; i + 1 < np; i++) pend[i] = pend[i + 1]; np--; } }
static void wrong(int t, char const *s, int n) { et[ne] = t; cp(ev[ne++], s, n); }
static int idc(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_'; }
static void ref(int argc, char **av) {
    for (int i = 1; i < argc; i++) {
        char const *p = av[i]; if (!*p) continue; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
        if (*p != '-') { if (np) give(pend[0], p); else wrong(ZPL_OPTS_ERR_VALUE, p, rlen(p)); continue; }
        int lg = p[1] == '-'; char const *b = p + 1 + lg; int n = 0, o = -1; while (idc(b[n])) n++; for (int k = 0; k < NO && o < 0; k++) { char const *w = lg ? ln[k] : sn[k]; int j = 0; if (!w) continue; while (j < n && w[j] && w[j] == b[j]) j++; if (j == n && !w[j]) o = k; }
        if (o < 0) { wrong(ZPL_OPTS_ERR_OPTION, b, rlen(b)); continue; } char const *nx = i + 1 < argc && av[i + 1][0] != '-' ? av[i + 1] : 0;
        if (b[n] == '=') { if (ty[o] == ZPL_OPTS_FLAG) wrong(ZPL_OPTS_ERR_EXTRA_VALUE, b, n); else give(o, b + n + 1); }
        else if (b[n]) { if (ty[o] == ZPL_OPTS_FLAG) give(o, ""); else give(o, b + n); }
        else if (ty[o] == ZPL_OPTS_FLAG) { if (nx && !np) wrong(ZPL_OPTS_ERR_EXTRA_VALUE, b, n); else met[o] = 1; }
        else if (nx) { give(o, nx); i++; } else wrong(ZPL_OPTS_ERR_MISSING_VALUE, b, n);
    }
}
static void run(int argc, char **av, int order) {
    vp_live = 0; vp_fail_at = -1; zpl_opts o; zpl_opts_init(&o, vp_heap(), "app"); np = ne = 0; for (int k = 0; k < NO; k++) met[k] = 0;
    for (int k = 0; k < NO; k++) { zpl_opts_add(&o, sn[k], ln[k], "text", (zpl_u8)ty[k]); if (order == 1 && k == 1) { zpl_opts_positional_add(&o, "st"); pend[np++] = 1; } if (order == 2 && k == 2) { zpl_opts_positional_add(&o, "it"); zpl_opts_positional_add(&o, "st"); pend[np++] = 2; pend[np++] = 1; } } zpl_opts_positional_add(&o, "none"); CHECK(!!zpl_opts_positionals_filled(&o) == (np == 0), "positionals expected");
    ref(argc, av); zpl_b32 ok = zpl_opts_compile(&o, argc, av); CHECK(!ok == (ne > 0), "errors are reported"); CHECK(zpl_array_count(o.errors) == ne, "every error once"); for (int i = 0; i < ne; i++) CHECK(o.errors[i].type == et[i] && seq(o.errors[i].val, ev[i]), "which error and where");
    for (int k = 0; k < NO; k++) { zpl_opts_entry *e = o.entries + k; CHECK(!!e->met == met[k], "exactly the given options are met"); if (met[k] && ty[k] == ZPL_OPTS_STRING) CHECK(seq(e->text, val[k]), "the given text"); if (ln[k]) { CHECK(!!zpl_opts_has_arg(&o, ln[k]) == met[k], "asked by name");
        if (ty[k] == ZPL_OPTS_STRING) CHECK(seq(zpl_opts_string(&o, ln[k], "dflt"), met[k] ? val[k] : "dflt"), "text or fallback"); if (ty[k] == ZPL_OPTS_INT) CHECK(zpl_opts_integer(&o, ln[k], -99) == (met[k] ? zpl_str_to_i64(val[k], 0, 10) : -99), "integer or fallback"); if (ty[k] == ZPL_OPTS_FLOAT) { double w = met[k] ? zpl_str_to_f64(val[k], 0) : 0.5; CHECK(zpl_opts_real(&o, ln[k], 0.5) == w, "number or fallback"); } } }
    CHECK(!!zpl_opts_positionals_filled(&o) == (np == 0), "positionals left"); CHECK(!zpl_opts_has_arg(&o, "none") && zpl_opts_integer(&o, "zz", 7) == 7, "unknown names fall back"); zpl_opts_free(&o); CHECK(vp_live == 0, "everything is returned"); REACHED();
}
static char *arg(int n, char const *pre, int any) { int a = rlen(pre); char *s = (char *)malloc(a + n + 1); cp(s, pre, a); for (int i = a; i < a + n; i++) { char c = s[i] = nd_char(); if (any) ASSUME(c && (c < '0' || c > '9' || c == '5')); else ASSUME(c == '-' || c == '=' || c == 's' || c == 't' || c == 'f' || c == 'i' || c == '5' || c == ' ' || c == '\\'); } s[a + n] = 0; return s; }
//@ x=h_any q="AC=1,N=6,T=40;AC=1,N=4" t="AC=1,N=8,T=400,J=8;AC=1,N=7,T=300" what="every argument of arbitrary bytes: exactly the denoted options, values, positionals and errors; everything is returned"
void h_any(void) { char *av[AC + 2] = { "app" }; int n = nd_pick(0, AC); for (int i = 1; i <= n; i++) av[i] = arg(nd_pick(0, N), "", 1); run(n + 1, av, nd_pick(0, 2)); for (int i = 1; i <= n; i++) free(av[i]); }
//@ x=h_line q="AC=2,N=4,T=60;AC=2,N=3" t="AC=3,N=2,T=600,J=8;AC=2,N=4,T=600" what="every command line over option names, values and separators likewise, with no, one or two positionals, registered before or after other options"
void h_line(void) { char *av[AC + 2] = { "app" }; int n = nd_pick(0, AC); for (int i = 1; i <= n; i++) av[i] = arg(nd_pick(0, N), "", 0); run(n + 1, av, nd_pick(0, 2)); for (int i = 1; i <= n; i++) free(av[i]); }
//@ x=h_forms q="AC=3,T=60;AC=2" t="AC=4,T=900,J=8;AC=3" what="combinations of every form of every option, values, repetitions and positionals, with the arguments' array not followed by anything"
void h_forms(void) { static char const *f[] = { "-f", "--fl", "-f=1", "-s", "--st=", "--st=ab", "-i", "--it=-5", "-x", "-x=q", "--d", "--d=2.5", "v", "12", "--no", "-", "" }; int n = nd_pick(0, AC); char **av = (char **)malloc((n + 1) * sizeof *av); av[0] = "app"; for (int i = 1; i <= n; i++) { char const *c = f[nd_pick(0, 16)]; int l = rlen(c); av[i] = (char *)malloc(l + 1); cp(av[i], c, l); } run(n + 1, av, nd_pick(0, 2)); for (int i = 1; i <= n; i++) free(av[i]); free(av); }
//@ x=h_print q="T=40" repl="zpl_printf_va:vp_pv" what="the printed help names the program, every positional option in its order and every option once with its names and description; the printed errors are exactly the errors met, each with its kind and text"
static char const *ds[NO] = { "d0", "d1", "d2", "d3", "d4" }; static char pr[256]; static int pn; static void pc(char c) { if (pn < 255) pr[pn++] = c; }
zpl_isize vp_pv(char const *fmt, va_list va) { for (int i = 0; fmt[i]; i++) if (fmt[i] == '%' && fmt[i + 1] == 's') { char const *s = va_arg(va, char const *); if (s) for (int k = 0; s[k]; k++) pc(s[k]); else pc('?'); i++; } else pc(fmt[i]); pr[pn] = 0; return 0; }
static int occ(char const *w) { int n = 0; for (int i = 0; i < pn; i++) { int k = 0; while (w[k] && pr[i + k] == w[k]) k++; n += !w[k]; } return n; }
static int find(char const *w, int from) { for (int i = from; i < pn; i++) { int k = 0; while (w[k] && pr[i + k] == w[k]) k++; if (!w[k]) return i; } return -1; }
void h_print(void) {
    vp_live = 0; vp_fail_at = -1; pn = 0; zpl_opts o; zpl_opts_init(&o, vp_heap(), "APP"); int n = nd_pick(0, 5), p = nd_pick(0, 2); for (int k = 0; k < n; k++) zpl_opts_add(&o, sn[k], ln[k], ds[k], (zpl_u8)ty[k]);
    if (n < 2) p = 0; else if (n < 3 && p > 1) p = 1; if (p) zpl_opts_positional_add(&o, "st"); if (p > 1) zpl_opts_positional_add(&o, "it");
    zpl_opts_print_help(&o); CHECK(occ("APP") == 1, "the program is named"); int nl = find("\n", 0), at = 0, lines = 0; CHECK(nl >= 0, "a usage line");
    for (int i = 0; i < pn; i++) lines += pr[i] == '\n'; CHECK(lines == n + 2, "one line for each option below the two headings");
    int br = 0; for (int i = 0; i < nl; i++) br += pr[i] == '['; CHECK(br == p, "the usage line shows each positional option once"); if (p) { int f = find("st]", 0); CHECK(f >= 0 && f < nl, "first positional option"); } if (p > 1) { int f = find("it]", 0); CHECK(f >= 0 && f < nl, "second positional option"); }
    for (int k = 0; k < n; k++) { int d = find(ds[k], nl); CHECK(occ(ds[k]) == 1 && d > at, "every description once, in order"); int b = d; while (b && pr[b - 1] != '\n') b--; char w[8]; int z = 0; w[z++] = '-'; w[z++] = '-'; if (ln[k]) { for (int q = 0; ln[k][q]; q++) w[z++] = ln[k][q]; w[z] = 0; int f = find(w, b); CHECK(f >= b && f < d, "long name"); } if (sn[k]) { char v[3] = { '-', sn[k][0], 0 }; int f = find(v, b); CHECK(f >= b && f < d, "short name"); if (!ln[k]) CHECK(find("?", b) < 0 || find("?", b) > d, "no missing name is printed"); } at = d; }
    pn = 0; char a[] = "--no", b[] = "-s", c[] = "-f=1", v[] = "v"; char *av[] = { "app", v, a, c, b }; zpl_opts_compile(&o, nd_pick(1, 5), av); int ne_ = (int)zpl_array_count(o.errors); static char before[256]; zpl_opts_print_help(&o); int hn = pn; for (int i = 0; i <= hn; i++) before[i] = pr[i]; CHECK(before[hn] == 0 && occ("[st]") == (p > 0) && occ("[it]") == (p > 1) && occ("APP") == 1, "the help is the same whatever was met"); pn = 0; zpl_opts_print_errors(&o); lines = 0; for (int i = 0; i < pn; i++) lines += pr[i] == '\n'; CHECK(lines == ne_, "one line for each error"); at = 0;
    for (int i = 0; i < ne_; i++) { char const *kw = o.errors[i].type == ZPL_OPTS_ERR_OPTION ? "nvalid option" : o.errors[i].type == ZPL_OPTS_ERR_VALUE ? "nvalid value" : o.errors[i].type == ZPL_OPTS_ERR_MISSING_VALUE ? "issing" : "xtra"; int f = find(kw, at), t = find(o.errors[i].val, f < 0 ? 0 : f), e = find("\n", at); CHECK(f >= at && f < t && t < e, "the kind and the text of the error"); at = e + 1; }
    zpl_opts_free(&o); CHECK(vp_live == 0, "everything is returned"); REACHED();
}
