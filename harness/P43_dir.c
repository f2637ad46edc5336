// P43: directory listings
#include <dirent.h>
#include <sys/stat.h>
#include <stdlib.h>
#include <errno.h>
DIR *opendir(const char *p); struct dirent *readdir(DIR *d); int closedir(DIR *d); int stat(const char *p, struct stat *s); int lstat(const char *p, struct stat *s);
#include "vp.h"
#ifndef NN
#define NN 3
#endif
#ifndef NL
#define NL 1
#endif
/* a small directory tree: node 0 is the root "r"; every directory reports "." and ".." somewhere */
typedef struct { char name[8]; int up, dir, dtype, link, refuse; unsigned mode; } node; static node t[12]; static int nt, opened, closed, visits[12], bad, infault, rootkind;
static char const *root = "r";
static int path(int i, char *o) { if (i == 0) { int n = 0; while (root[n]) o[n] = root[n], n++; o[n] = 0; return n; } int n = path(t[i].up, o); o[n++] = '/'; for (char *s = t[i].name; *s; s++) o[n++] = *s; o[n] = 0; return n; }
static int same(char const *a, char const *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static int find(char const *p) { char o[64]; for (int i = 0; i < nt; i++) { path(i, o); if (same(p, o)) return i; } return -1; }
typedef struct { int node, pos; struct dirent e; } st;
DIR *opendir(const char *p) { int i = find(p); if (i < 0 || !t[i].dir || t[i].refuse) { errno = ENOENT; return 0; } st *s = (st *)malloc(sizeof *s); s->node = i; s->pos = -2; opened++; visits[i]++; return (DIR *)s; }
struct dirent *readdir(DIR *d) {
    st *s = (st *)d; s->e.d_name[0] = 0; int q = s->pos++; if (q == -2) { s->e.d_name[0] = '.'; s->e.d_name[1] = 0; s->e.d_type = DT_DIR; return &s->e; } int k = q + 1; for (int i = 1; i < nt; i++) if (t[i].up == s->node && k-- == 0) { int n = 0; for (; t[i].name[n]; n++) s->e.d_name[n] = t[i].name[n]; s->e.d_name[n] = 0; s->e.d_type = (unsigned char)t[i].dtype; return &s->e; }
    if (k == 0) { s->e.d_name[0] = s->e.d_name[1] = '.'; s->e.d_name[2] = 0; s->e.d_type = DT_DIR; return &s->e; } return 0;
}
int closedir(DIR *d) { closed++; free(d); return 0; }
static int st_(int i, struct stat *s, int follow) { if (i < 0) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = (t[i].link && !follow) ? S_IFLNK | 0777 : t[i].mode; return 0; }
int stat(const char *p, struct stat *s) { return st_(find(p), s, 1); }
int lstat(const char *p, struct stat *s) { return st_(find(p), s, 0); }
static void build(int deep) {
    memset(t, 0, sizeof t); nt = 1; opened = closed = bad = 0; t[0].dir = 1; t[0].mode = S_IFDIR | 0755; int n = nd_pick(0, NN);
    for (int i = 1; i <= n; i++) { nt++; node *x = t + i; int dd = i == 1 ? nd_pick(0, 2) : 0, l = nd_pick(1, NL) + dd; for (int j = 0; j < l; j++) { x->name[j] = j < dd ? '.' : nd_char(); ASSUME(x->name[j] && x->name[j] != '/' && x->name[j] != '\n'); } ASSUME(!(x->name[0] == '.' && (!x->name[1] || (x->name[1] == '.' && !x->name[2])))); int k = nd_pick(0, deep ? 4 : 3);
        x->up = 0; if (deep && i > 1 && t[i - 1].dir && nd_pick(0, 1)) x->up = i - 1; x->dir = k == 0 || k == 4; x->link = k == 2; x->refuse = k == 4; x->mode = (x->dir || k == 2 ? S_IFDIR : k == 1 ? S_IFREG : deep ? S_IFBLK : nd_pick(0, 1) ? S_IFSOCK : S_IFIFO) | 0644; x->dtype = x->dir ? DT_DIR : k == 1 ? DT_REG : k == 2 ? DT_LNK : DT_BLK; if (nd_pick(0, 1)) x->dtype = DT_UNKNOWN; for (int j = 1; j < i; j++) if (t[j].up == x->up) ASSUME(!same(t[j].name, x->name)); }
}
static int listed(char const *s, char const *w) { int c = 0, b = 0, i = 0; for (;; i++) if (!s[i]) return i == b ? c : -1; else if (s[i] == '\n') { int j = 0; while (w[j] && b + j < i && s[b + j] == w[j]) j++; c += !w[j] && b + j == i; b = i + 1; } }
//@ x=h_list q="NN=3,T=60" t="NN=4,NL=2,T=900,J=8;NN=3,NL=2,T=300" what="for every directory tree of symbolic names: every entry but the self references is listed exactly once with its full path, recursion enters exactly the real sub-directories (also when the type is unknown) once, links are not followed, and every directory is closed"
void h_list(void) {
    build(1); int rec = nd_pick(0, 1), miss = nd_pick(0, 1); t[0].refuse = miss; vp_live = 0; vp_fail_at = -1; int base = vp_heapmark(); zpl_string o = zpl_path_dirlist(vp_heap(), "r", rec); CHECK(o != 0 && rlen(o) == zpl_string_length(o), "a text"); CHECK(opened == closed, "every directory is closed"); int want = 0;
    for (int i = 1; i < nt; i++) { char p[64]; path(i, p); int in = !miss && (t[i].up == 0 || rec); for (int u = t[i].up; u; u = t[u].up) if (t[u].refuse) in = 0; want += in; CHECK(listed(o, p) == in, "listed exactly once"); CHECK(visits[i] == (in && rec && t[i].dir && !t[i].refuse), "exactly the real sub-directories are entered"); } int lines = 0; for (int i = 0; o[i]; i++) lines += o[i] == '\n'; CHECK(lines == want, "nothing else is listed"); zpl_string_free(o); CHECK(vp_live == 0 && vp_heapmark() == base, "no leak"); REACHED();
}
//@ x=h_info q="NN=2,T=60" t="NN=3,NL=2,T=600,J=8;NN=3,T=300" what="directory information has every entry once with its full name and type; stepping into an entry gives the folder's own entries, for a file those of its folder; freeing returns everything"
static void check(zpl_dir_info *d, int of) { int k = 0; for (int i = 1; i < nt; i++) if (t[i].up == of) { k++; char p[64]; path(i, p); int c = 0; for (int j = 0; j < zpl_array_count(d->entries); j++) if (same(d->entries[j].filename, p)) { c++; CHECK(d->entries[j].type == (S_ISDIR(t[i].mode) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE), "its type"); } CHECK(c == 1, "every entry once"); } CHECK(zpl_array_count(d->entries) == k, "nothing else"); }
void h_info(void) {
    build(0); for (int i = 1; i < nt; i++) ASSUME(t[i].name[rlen(t[i].name) - 1] != '\r'); int base = vp_heapmark(); zpl_dir_info d; zpl_dirinfo_init(&d, "r"); CHECK(same(d.fullpath, "r"), "its path"); check(&d, 0);
    for (int i = 1; i < nt; i++) for (int j = 0; j < zpl_array_count(d.entries); j++) { char p[64]; path(i, p); if (same(d.entries[j].filename, p) && !t[i].link) { for (int r = 0; r < 2; r++) { zpl_dirinfo_step(d.entries + j); CHECK(d.entries[j].dir_info != 0, "stepped"); if (t[i].dir) CHECK(zpl_array_count(d.entries[j].dir_info->entries) == 0, "an empty folder"); else check(d.entries[j].dir_info, 0); } } }
    zpl_dirinfo_free(&d); CHECK(opened == closed, "every directory is closed"); CHECK(vp_heapmark() == base, "no leak"); REACHED();
}
//@ x=h_type q="T=20" what="the type of a path follows the file mode for every mode, and is unknown for a missing path"
void h_type(void) { nt = 1; unsigned m = nd_u16(); t[0].mode = m; zpl_u8 y = zpl_fs_get_type("r"); CHECK(y == ((m & S_IFMT) == S_IFDIR ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE), "by the mode"); CHECK(zpl_fs_get_type("x") == ZPL_DIR_TYPE_UNKNOWN, "missing"); REACHED(); }
//@ x=h_newline known=dir_newline reach=0 q="T=20" what="directory information of names holding a line end or ending in a carriage return"
void h_newline(void) { memset(t, 0, sizeof t); nt = 2; t[0].dir = 1; t[0].mode = S_IFDIR; t[1].name[0] = 'a'; int k = nd_pick(0, 1); t[1].name[1] = k ? '\n' : '\r'; t[1].name[2] = k ? 'b' : 0; t[1].mode = S_IFREG; t[1].dtype = DT_REG; zpl_dir_info d; zpl_dirinfo_init(&d, "r"); check(&d, 0); zpl_dirinfo_free(&d); }
//@ x=h_refresh q="NN=2,T=60" t="NN=3,NL=2,T=600,J=8;NN=3,T=300" what="refreshing a file's directory information gives the entries of its folder, again after a change, nothing for temporary files, and closing the file returns everything"
static zpl_isize nop_close; static ZPL_FILE_CLOSE_PROC(close_) { (void)fd; nop_close++; }
void h_refresh(void) {
    build(0); for (int i = 1; i < nt; i++) ASSUME(t[i].name[rlen(t[i].name) - 1] != '\r'); int base = vp_heapmark(); zpl_file f; memset(&f, 0, sizeof f); f.ops = zpl_default_file_operations; f.ops.close = close_; f.fd.i = 7; char *n = (char *)zpl_malloc(8); strcpy(n, "r/q"); f.filename = n; f.is_temp = nd_pick(0, 1);
    for (int r = 0; r < 2; r++) { zpl_file_dirinfo_refresh(&f); if (f.is_temp) CHECK(!f.dir, "none for temporary files"); else { CHECK(f.dir && f.dir->dir_info && same(f.dir->dir_info->fullpath, "r"), "its folder"); check(f.dir->dir_info, 0); } if (nt > 1) nt--; }
    CHECK(opened == closed, "every directory is closed"); if (f.is_temp) zpl_mfree(n); else zpl_file_close(&f); CHECK(vp_heapmark() == base, "no leak"); REACHED();
}
