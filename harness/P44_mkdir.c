// P44: making and removing directories
#include <sys/stat.h>
#include <unistd.h>
#include <stdlib.h>
#include <errno.h>
int mkdir(const char *p, mode_t m); int rmdir(const char *p);
#include "vp.h"
#ifndef N
#define N 5
#endif
static char made[12][16]; static int calls, err, failat = -1, badmode; static mode_t want;
int mkdir(const char *p, mode_t m) { if (m != want) badmode++; int i = 0; for (; p[i] && i < 15; i++) made[calls % 12][i] = p[i]; made[calls % 12][i] = 0; int k = calls++; if (failat == -2 || k == failat) { errno = err; return -1; } return 0; }
int rmdir(const char *p) { int i = 0; for (; p[i] && i < 15; i++) made[0][i] = p[i]; made[0][i] = 0; calls++; if (failat == -2) { errno = err; return -1; } return 0; }
static int same(char const *a, char const *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return !a[n]; }
//@ x=h_one q="T=20" what="making and removing a directory asks for exactly that path and mode and reports every system error under its own code"
void h_one(void) {
    char *s = vp_strn(nd_pick(0, 3)); int f = nd_pick(0, 1), mk = nd_pick(0, 1); err = (int)nd_in(1, 130); failat = f ? -2 : -1; want = (mode_t)nd_in(0, 07777); zpl_file_error e = mk ? zpl_path_mkdir(s, (zpl_i32)want) : zpl_path_rmdir(s); CHECK(calls == 1 && !badmode && same(made[0], s, rlen(s)), "one request for the path");
    zpl_file_error w = !f ? ZPL_FILE_ERROR_NONE : err == EPERM || err == EACCES ? ZPL_FILE_ERROR_PERMISSION : err == ENAMETOOLONG ? ZPL_FILE_ERROR_NAME_TOO_LONG : mk && err == EEXIST ? ZPL_FILE_ERROR_EXISTS : !mk && err == ENOENT ? ZPL_FILE_ERROR_NOT_EXISTS : !mk && err == ENOTEMPTY ? ZPL_FILE_ERROR_NOT_EMPTY : ZPL_FILE_ERROR_UNKNOWN; CHECK(e == w, "the error's own code"); free(s); REACHED();
}
//@ x=h_deep q="N=6,T=60;N=5" t="N=10,T=400,J=8;N=8" what="making a path recursively asks for every level from the outside in and the path itself, leaves the text alone, and reports success exactly when the directory exists afterwards"
void h_deep(void) {
    int n = nd_pick(1, N); char *s = vp_strn(n), *c = (char *)malloc(n + 1); memcpy(c, s, n + 1); want = 0755; int f = nd_pick(0, 3), L = 0; for (int i = 1; i < n; i++) L += s[i] == '/'; err = f == 1 ? EACCES : f == 2 ? EEXIST : ENOSPC; failat = f == 0 ? -1 : f == 3 ? L : -2; if (f == 3 && nd_pick(0, 1)) err = EEXIST; zpl_isize r = zpl_path_mkdir_recursive(s, 0755);
    CHECK(calls == L + 1 && !badmode, "one request per level"); int k = 0; for (int i = 1; i <= n; i++) if (i == n || s[i] == '/') { CHECK(same(made[k], s, i), "outside in"); k++; } for (int i = 0; i <= n; i++) CHECK(s[i] == c[i], "the text is unchanged"); CHECK((r == 0) == (f == 0 || err == EEXIST) && (r == 0 || r == -1), "success exactly when the directory exists"); free(s); free(c); REACHED();
}
//@ x=h_long q="T=30,STEPS=4000000" what="paths longer than the system's limit are refused without being followed, the longest one is made"
void h_long(void) { int n = ZPL_MAX_PATH - nd_pick(0, 3) + 1; char *s = (char *)malloc(n + 1); for (int i = 0; i < n; i++) s[i] = 'a'; s[n] = 0; want = 0700; zpl_isize r = zpl_path_mkdir_recursive(s, 0700); if (n > ZPL_MAX_PATH - 1) CHECK(r == -1 && calls == 0, "refused"); else CHECK(r == 0 && calls == 1, "made"); free(s); REACHED(); }
