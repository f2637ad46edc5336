// P42: path helpers
#include <stdlib.h>
#include <errno.h>
char *realpath(const char *p, char *r);
#include "vp.h"
#ifndef N
#define N 6
#endif
static char const *real_to; static int real_calls, real_live; static char const *real_arg;
/* the replay runs under the address sanitizer, which sees whether the resolved text is released */
char *realpath(const char *p, char *r) { real_calls++; real_arg = p; if (!real_to) { errno = ENOENT; return 0; } int n = rlen(real_to); if (!r) r = (char *)malloc(n + 1); memcpy(r, real_to, n + 1); return r; }
//@ x=h_split q="N=10,T=40;N=6" t="N=16,T=400,J=8;N=12" what="base name, extension, absolute, relative and root tests agree with the text of every path and point into it; fixing separators leaves the text alone"
void h_split(void) {
    int n = nd_pick(0, N); char *s = vp_strn(n), *c = (char *)malloc(n + 1); memcpy(c, s, n + 1); char const *b = zpl_path_base_name(s), *x = zpl_path_extension(s); int bs = 0, dot = -1; for (int i = 0; c[i]; i++) if (c[i] == '/') bs = i + 1, dot = -1; else if (c[i] == '.') dot = i;
    CHECK(b == s + bs, "the base name follows the last separator"); CHECK(x == (dot < 0 ? 0 : s + dot + 1), "the extension follows the last dot of the base name"); CHECK(!!zpl_path_is_absolute(s) == (c[0] == '/'), "absolute paths start with a separator"); CHECK(!!zpl_path_is_relative(s) == (c[0] != '/'), "other paths are relative"); CHECK(!!zpl_path_is_root(s) == (c[0] == '/' && !c[1]), "only a lone separator is the root"); zpl_path_fix_slashes(s); for (int i = 0; i <= n; i++) CHECK(s[i] == c[i], "the text is unchanged"); free(s); free(c); REACHED();
}
//@ x=h_full q="T=40" what="the full name is the resolved path, or the path itself when it does not exist, in a block of the given allocator; failure to allocate is reported and nothing leaks"
void h_full(void) {
    char *s = vp_strn(nd_pick(0, 3)), *t = vp_strn(nd_pick(0, 4)); int ok = nd_pick(0, 1), f = nd_pick(0, 1); real_to = ok ? t : 0; vp_live = 0; vp_allocs = 0; vp_fail_at = f ? 0 : -1; int base = vp_heapmark(); char *r = zpl_path_get_full_name(vp_heap(), s); vp_fail_at = -1; if (f) CHECK(!r, "reported"); else { char const *w = ok ? t : s; CHECK(r != 0 && vp_live == 1, "one block"); int i = 0; for (; w[i]; i++) CHECK(r[i] == w[i], "the path's text"); CHECK(!r[i], "terminated"); zpl_free(vp_heap(), r); } CHECK(vp_live == 0 && vp_heapmark() == base, "no leak"); free(s); free(t); REACHED();
}
