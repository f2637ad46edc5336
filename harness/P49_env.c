// P49: environment variables and the output of commands, over a modelled environment and pipe
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#define VN 4
static char names_[VN][8], vals_[VN][4104]; static int used_[VN], bad_;
static int vfind_(const char *n) { for (int i = 0; i < VN; i++) if (used_[i]) { int k = 0; while (names_[i][k] && names_[i][k] == n[k]) k++; if (names_[i][k] == n[k]) return i; } return -1; }
char *getenv(const char *n) { int i = vfind_(n); return i < 0 ? 0 : vals_[i]; }
int setenv(const char *n, const char *v, int o) { int i = vfind_(n); if (i >= 0 && !o) return 0; for (int k = 0; i < 0 && k < VN; k++) if (!used_[k]) i = k; if (i < 0) { bad_++; return -1; } used_[i] = 1; int k = 0; for (; n[k]; k++) names_[i][k] = n[k]; names_[i][k] = 0; for (k = 0; v[k]; k++) vals_[i][k] = v[k]; vals_[i][k] = 0; return 0; }
int unsetenv(const char *n) { int i = vfind_(n); if (i >= 0) used_[i] = 0; return 0; }
int putenv(char *s) { (void)s; bad_++; return -1; }
#ifndef OUTN
#define OUTN 70000
#endif
static unsigned char out_[OUTN]; static int on_, opos_, popen_, fail_; static const char *cmd_; static int pipe_obj_; 
static FILE *vp_popen(const char *c, const char *m) { cmd_ = c; if (m[0] != 'r') bad_++; if (fail_) return 0; popen_++; return (FILE *)&pipe_obj_; }
static int vp_pclose(FILE *f) { if (f != (FILE *)&pipe_obj_ || popen_ != 1) bad_++; popen_--; return 0; }
static int vp_fclose(FILE *f) { if (f == (FILE *)&pipe_obj_) bad_++; return 0; }
static int vp_getc(FILE *f) { if (f != (FILE *)&pipe_obj_ || popen_ != 1) bad_++; return opos_ < on_ ? out_[opos_++] : EOF; }
static size_t vp_fread(void *p, size_t w, size_t n, FILE *f) { size_t k = 0; while (k < w * n) { int c = vp_getc(f); if (c == EOF) break; ((unsigned char *)p)[k++] = (unsigned char)c; } return k / w; }
static char *vp_fgets(char *p, int n, FILE *f) { int k = 0; while (k < n - 1) { int c = vp_getc(f); if (c == EOF) break; p[k++] = (char)c; if (c == '\n') break; } p[k] = 0; return k ? p : 0; }
#undef getc
#define popen vp_popen
#define pclose vp_pclose
#define getc vp_getc
#define fclose vp_fclose
#define fgetc vp_getc
#define fread vp_fread
#define fgets vp_fgets
#define feof(f) (opos_ >= on_)
#define ferror(f) 0
#include "vp.h"
static char const *const NM[] = { "A", "B", "AB" };
//@ x=h_env q="K=4,T=60" t="K=5,T=300" what="every history of setting, unsetting and reading variables with any short value: reading gives the value last set or nothing, copies are exact and independent, and other variables do not change"
#ifndef K
#define K 3
#endif
void h_env(void) {
    char m[3][4]; int set[3] = { 0, 0, 0 };
    for (int s = 0; s < K; s++) {
        int op = nd_pick(0, 4), i = nd_pick(0, 2); char const *n = NM[i];
        if (op == 0) { char v[4]; int l = nd_pick(0, 2); for (int k = 0; k < l; k++) { v[k] = nd_char(); ASSUME(v[k] != 0); } v[l] = 0; zpl_set_env(n, v); memcpy(m[i], v, 4); set[i] = 1; v[0] = 0; }
        else if (op == 1) { zpl_unset_env(n); set[i] = 0; }
        else if (op == 2) { char const *r = zpl_get_env_buf(n); CHECK(!!r == set[i], "set or not"); if (r) CHECK(!strcmp(r, m[i]), "value"); }
        else if (op == 3) { char *r = (char *)zpl_get_env(n); CHECK(!!r == set[i], "set or not"); if (r) { CHECK(!strcmp(r, m[i]), "value"); CHECK(r != getenv(n), "a copy"); r[0] = 0; CHECK(!strcmp(getenv(n), m[i]), "independent"); zpl_mfree(r); } }
        else { zpl_string r = zpl_get_env_str(n); CHECK(!!r == set[i], "set or not"); if (r) { CHECK(!strcmp(r, m[i]) && zpl_string_length(r) == (zpl_isize)strlen(m[i]), "value"); zpl_string_free(r); } }
    }
    for (int i = 0; i < 3; i++) { char *r = getenv(NM[i]); CHECK(!!r == set[i] && (!r || !strcmp(r, m[i])), "the environment as set"); } CHECK(!bad_, "valid requests"); REACHED();
}
//@ x=h_long q="T=60" what="values of up to thousands of characters, every small length: the whole value, and memory for exactly that"
void h_long(void) {
    int p = nd_pick(0, 43); int l = p < 40 ? p : p == 40 ? 255 : p == 41 ? 256 : p == 42 ? 4095 : 4096; static char v[4100]; for (int k = 0; k < l; k++) v[k] = (char)('a' + k % 26); v[l] = 0; char c = nd_char(); ASSUME(c); if (l) v[l - 1] = c; zpl_set_env("A", v);
    char const *b = zpl_get_env_buf("A"); CHECK(b && strlen(b) == (size_t)l && !strcmp(b, v), "value"); char *r = (char *)zpl_get_env("A"); CHECK(r && strlen(r) == (size_t)l && !strcmp(r, v), "copy"); zpl_mfree(r); zpl_string t = zpl_get_env_str("A"); CHECK(t && zpl_string_length(t) == l && !strcmp(t, v), "string"); zpl_string_free(t); REACHED();
}
//@ x=h_cmd q="T=60" what="the output of a command, any bytes: the buffer gets as much as fits and nothing beyond it, the string gets all of it, failure to start is reported, and the pipe is closed"
void h_cmd(void) {
    on_ = nd_pick(0, 6); for (int i = 0; i < on_; i++) out_[i] = nd_u8(); fail_ = nd_pick(0, 1); int cap = nd_pick(0, 7); unsigned char *b = (unsigned char *)malloc(cap ? cap : 1); memset(b, 0x77, cap ? cap : 1); char const *c = "cmd"; vp_fail_at = -1;
    if (nd_pick(0, 1)) { zpl_u32 r = zpl_system_command(c, cap, (char *)b); CHECK(r == !fail_, "started"); int n = fail_ ? 0 : on_ < cap ? on_ : cap; for (int i = 0; i < n; i++) CHECK(b[i] == out_[i], "output"); }
    else { zpl_string s = zpl_system_command_str(c, vp_heap()); CHECK(!!s == !fail_, "started"); if (s) { CHECK(zpl_string_length(s) == on_, "all of the output"); for (int i = 0; i < on_; i++) CHECK((unsigned char)s[i] == out_[i], "output"); CHECK(s[on_] == 0, "terminated"); zpl_string_free(s); } CHECK(vp_live == 0, "no memory kept"); }
    CHECK(cmd_ == c && popen_ == 0 && !bad_, "the command is run and its pipe closed"); free(b); REACHED();
}
//@ x=h_large q="T=60,STEPS=60000000" what="likewise thousands of bytes of output: nothing is lost, cut or added"
void h_large(void) {
    static int const LN[5] = { 255, 4095, 4096, 4097, 66000 }; on_ = LN[nd_pick(0, 4)]; for (int i = 0; i < on_; i++) out_[i] = (unsigned char)(i * 7 + (i >> 8)); out_[on_ - 1] = nd_u8(); out_[on_ / 2] = nd_u8(); vp_live = 0; vp_fail_at = -1;
    if (nd_pick(0, 1)) { int cap = nd_pick(0, 1) ? on_ + 1 : on_ - 1; unsigned char *b = (unsigned char *)malloc(cap); CHECK(zpl_system_command("c", cap, (char *)b) == 1, "started"); int n = on_ < cap ? on_ : cap; CHECK(!memcmp(b, out_, n), "output"); free(b); }
    else { zpl_string s = zpl_system_command_str("c", vp_heap()); CHECK(s && zpl_string_length(s) == on_, "all of the output"); CHECK(!memcmp(s, out_, on_) && s[on_] == 0, "output"); zpl_string_free(s); CHECK(vp_live == 0, "no memory kept"); }
    CHECK(popen_ == 0 && !bad_, "the pipe is closed"); REACHED();
}
//@ x=h_cmd_fail q="T=60" what="output of a command with the k-th allocation refused: all of the output or nothing, nothing leaked, the pipe closed"
void h_cmd_fail(void) {
    on_ = nd_pick(0, 12); for (int i = 0; i < on_; i++) out_[i] = nd_u8(); fail_ = 0; vp_live = 0; vp_allocs = 0; vp_fail_at = nd_pick(0, 6); zpl_string s = zpl_system_command_str("c", vp_heap()); vp_fail_at = -1;
    if (s) { CHECK(zpl_string_length(s) == on_ && s[on_] == 0, "all of the output"); for (int i = 0; i < on_; i++) CHECK((unsigned char)s[i] == out_[i], "output"); zpl_string_free(s); } CHECK(vp_live == 0, "no memory kept"); CHECK(popen_ == 0 && !bad_, "the pipe is closed"); REACHED();
}
