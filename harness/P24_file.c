// P24: file operations over a modelled POSIX file world with symbolic faults on every call
#include "vp_posix.h"
/* temporary files: a stdio stream over a new descriptor on file "c" */
static int px_streams; static char px_stream;
FILE *tmpfile(void) { px_calls++; if (px_fault(1)) { errno = EMFILE; return 0; } px_f[2].exists = 1; px_f[2].n = 0; if (px_newfd(2, O_RDWR) < 0) return 0; px_streams++; return (FILE *)(void *)&px_stream; }
int fileno(FILE *f) { if ((void *)f != (void *)&px_stream) return -1; for (int i = 0; i < PX_FD; i++) if (px_fd[i].open && px_fd[i].file == 2) return PX_BASE + i; return -1; }
static int px_fclose(void) { int k = fileno((FILE *)(void *)&px_stream); px_streams--; return close(k); }
#define fclose(f) px_fclose()
#include "vp.h"
#undef fclose
static int vp_onlyshort;
static int px_fault(int kinds) { if (px_faults <= 0) return 0; if (vp_onlyshort) { if (kinds < 2) return 0; int s = nd_pick(0, 1); if (s) px_faults--; return s ? 2 : 0; } int k = nd_pick(0, kinds); if (k) px_faults--; return k; }
#ifndef FN
#define FN 3
#endif
#ifndef K
#define K 2
#endif
#ifndef FA
#define FA 1
#endif
#ifndef WL
#define WL 2
#endif
static void world(int na) { for (int i = 0; i < PX_FD; i++) px_fd[i].open = 0; px_faults = px_opens = px_closes = px_calls = px_bad = px_streams = 0; for (int i = 0; i < PX_FILES; i++) { px_f[i].exists = px_f[i].isdir = px_f[i].n = 0; px_f[i].mode = 0644; px_f[i].mtime = 0; } if (na >= 0) { px_f[0].exists = 1; px_f[0].n = na; nd_bytes(px_f[0].d, na); } vp_live = 0; vp_fail_at = -1; }
static void quiet(void) { CHECK(px_openfds() == 0 && px_opens == px_closes && !px_bad, "every descriptor opened is closed exactly once"); }
//@ x=h_open q="T=60" what="every open mode, with and without an existing file and an open failure: access mode, creation and truncation as documented, failure reported, name kept, descriptor closed once"
void h_open(void) {
    world(nd_pick(0, 3) - 1); int had = px_f[0].exists, n0 = px_f[0].n; px_faults = FA; zpl_file f; int m = nd_pick(0, 5); zpl_file_mode mode = (zpl_file_mode)((m % 3 == 0 ? ZPL_FILE_MODE_READ : m % 3 == 1 ? ZPL_FILE_MODE_WRITE : ZPL_FILE_MODE_APPEND) | (m >= 3 ? ZPL_FILE_MODE_RW : 0)); int base = vp_heapmark();
    int how = nd_pick(0, 2); zpl_file_error e; if (how == 1) { m = 0; e = zpl_file_open(&f, "a"); } else if (how == 2) { m = 4; e = zpl_file_create(&f, "a"); } else e = zpl_file_open_mode(&f, mode, "a");
    int creates = m % 3 != 0; if (px_faults < FA || (!had && !creates)) { CHECK(e != ZPL_FILE_ERROR_NONE, "failure is reported"); CHECK(zpl_file_close(&f) != ZPL_FILE_ERROR_NONE, "nothing to close"); quiet(); CHECK(px_opens == 0, "nothing opened"); CHECK(vp_heapmark() == base, "no leak"); REACHED(); return; }
    CHECK(e == ZPL_FILE_ERROR_NONE && px_opens == 1, "opened once"); int fl = px_fd[(int)f.fd.i - PX_BASE].flags; CHECK((fl & O_ACCMODE) == (m >= 3 ? O_RDWR : m == 0 ? O_RDONLY : O_WRONLY), "access mode"); CHECK(!!(fl & O_APPEND) == (m % 3 == 2), "append mode"); CHECK(px_f[0].n == (m % 3 == 1 ? 0 : had ? n0 : 0), "only write mode truncates");
    CHECK(zpl_file_name(&f)[0] == 'a' && !zpl_file_name(&f)[1], "file name"); px_faults = 0; CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "closed"); quiet(); CHECK(vp_heapmark() == base, "no leak"); REACHED();
}
//@ x=h_rw q="K=3,FN=2,WL=1,FA=1,T=60,J=4" t="K=3,FN=3,WL=3,FA=2,T=900,J=8;K=3,FN=2,WL=2,FA=1,T=400" what="any sequence of sequential and positioned reads and writes, seeks, size queries and truncation on an open file equals the model, for every failure and short transfer"
void h_rw(void) {
    world(nd_pick(0, FN)); int fs = px_f[0].n; zpl_file f; CHECK(zpl_file_open_mode(&f, (zpl_file_mode)(ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW), "a") == ZPL_FILE_ERROR_NONE, "opened"); (void)fs; int fd = (int)f.fd.i - PX_BASE; static unsigned char ref[PX_CAP];
    for (int k = 0; k < K; k++) {
        int op = nd_pick(0, 6), n = px_f[0].n, cur = px_fd[fd].pos; for (int i = 0; i < n; i++) ref[i] = px_f[0].d[i];
        if (op < 4) px_faults = FA; int had = px_faults;
        if (op == 0 || op == 1) { int l = nd_pick(0, WL + 1), at = op ? nd_pick(0, n + 1) : cur; unsigned char *p = vp_bytes(l), *q = malloc((size_t)l); for (int i = 0; i < l; i++) q[i] = p[i]; zpl_isize got = op ? -1 : 0; int r; 
            if (op) r = zpl_file_read_at_check(&f, p, l, at, &got); else r = zpl_file_read(&f, p, l); int faulted = px_faults != had; px_faults = 0; int av = at >= n ? 0 : n - at < l ? n - at : l;
            if (!faulted) { CHECK(r, "reading succeeds"); for (int i = 0; i < av; i++) CHECK(p[i] == ref[at + i], "bytes read"); for (int i = av; i < l; i++) CHECK(p[i] == q[i], "nothing else is written"); CHECK(px_fd[fd].pos == (op ? cur : cur + av), "position after reading"); if (op) CHECK(got == av, "count"); }
            else { for (int i = 0; i < l; i++) CHECK(p[i] == q[i] || (at + i < n && p[i] == ref[at + i]), "only the file's bytes are delivered"); if (op) { CHECK(px_fd[fd].pos == cur, "positioned reads leave the position"); CHECK(!r || (got >= 0 && got <= av), "count"); if (r) for (int i = 0; i < got; i++) CHECK(p[i] == ref[at + i], "delivered bytes"); } else CHECK(px_fd[fd].pos <= cur + av && px_fd[fd].pos >= 0, "the position never passes what was read"); }
            CHECK(px_f[0].n == n, "reading leaves the file"); free(p); free(q); }
        else if (op == 2 || op == 3) { int l = nd_pick(0, WL), at = op == 3 ? nd_pick(0, n + 1) : cur; unsigned char *p = vp_bytes(l); zpl_isize put = -1; int r = op == 3 ? zpl_file_write_at_check(&f, p, l, at, &put) : zpl_file_write(&f, p, l); int faulted = px_faults != had; px_faults = 0;
            if (!faulted) { CHECK(r, "writing succeeds"); CHECK(px_f[0].n == (l && at + l > n ? at + l : n), "size after writing"); for (int i = 0; i < px_f[0].n; i++) CHECK(px_f[0].d[i] == (i >= at && i < at + l ? p[i - at] : i < n ? ref[i] : 0), "contents after writing"); if (op == 2) CHECK(px_fd[fd].pos == cur + l, "position after writing"); else CHECK(put == l, "count"); }
            else { for (int i = 0; i < px_f[0].n; i++) CHECK((i < n && px_f[0].d[i] == ref[i]) || (i >= at && i < at + l && px_f[0].d[i] == p[i - at]) || (i >= n && i < at && px_f[0].d[i] == 0), "nothing but the given bytes is written"); if (op == 3 && r) { CHECK(put >= 0 && put <= l, "count"); for (int i = 0; i < put; i++) CHECK(px_f[0].d[at + i] == p[i], "counted bytes were written"); } }
            free(p); }
        else if (op == 4) { int to = nd_pick(0, n + 1); CHECK(zpl_file_seek(&f, to) == to && zpl_file_tell(&f) == to, "seek"); }
        else if (op == 5) { CHECK(zpl_file_size(&f) == n && zpl_file_tell(&f) == cur, "size leaves the position"); CHECK(zpl_file_seek_to_end(&f) == n && zpl_file_skip(&f, -(n / 2)) == n - n / 2, "seek to the end and skip"); }
        else { int to = nd_pick(0, n + 1); px_faults = FA; int ok = zpl_file_truncate(&f, to) == ZPL_FILE_ERROR_NONE; CHECK(ok == (px_faults == FA), "truncation failure is reported"); px_faults = 0; CHECK(px_f[0].n == (ok ? to : n), "truncated"); }
    }
    zpl_file_close(&f); quiet(); REACHED();
}
//@ x=h_load q="FN=4,FA=2,T=60" t="FN=6,FA=3,T=300" what="loading a whole file delivers exactly its contents, terminated when asked, or nothing, for every failure and short read; nothing stays open or leaks"
void h_load(void) {
    world(nd_pick(0, FN + 1) - 1); px_f[0].isdir = px_f[0].exists && nd_pick(0, 1); px_faults = FA; int z = nd_pick(0, 1), base = vp_heapmark(); vp_allocs = 0; vp_fail_at = nd_pick(0, 1) - 1; int nofail = vp_fail_at < 0;
    zpl_file_contents c = zpl_file_read_contents(vp_heap(), z, "a"); quiet();
    if (!px_f[0].exists || px_f[0].isdir) { if (px_faults == FA || !px_f[0].exists) CHECK(!c.data && !c.size && vp_live == 0, "nothing to load"); }
    if (c.data) { CHECK(c.size <= px_f[0].n && c.size >= 0, "never more than there is"); for (int i = 0; i < c.size; i++) CHECK(((unsigned char *)c.data)[i] == px_f[0].d[i], "contents"); if (z) CHECK(((char *)c.data)[c.size] == 0, "terminated"); if (px_faults == FA) CHECK(c.size == px_f[0].n, "complete"); CHECK(vp_live == 1, "one block"); zpl_file_free_contents(&c); CHECK(!c.data && !c.size, "released"); }
    else { CHECK(c.size == 0, "no contents, no size"); if (px_faults == FA && nofail && px_f[0].exists && !px_f[0].isdir) CHECK(px_f[0].n == 0, "loading succeeds"); }
    CHECK(vp_live == 0 && vp_heapmark() == base, "no leak"); REACHED();
}
//@ x=h_short q="FN=4,T=60" t="FN=6,T=300" what="short reads and short writes alone never lose data when loading or storing whole files"
void h_short(void) {
    world(nd_pick(0, FN)); px_faults = 3; int n = px_f[0].n; zpl_file_contents c;
    vp_onlyshort = 1; c = zpl_file_read_contents(vp_heap(), 0, "a"); if (n) { CHECK(c.data && c.size == n, "everything is read"); for (int i = 0; i < n; i++) CHECK(((unsigned char *)c.data)[i] == px_f[0].d[i], "contents"); zpl_file_free_contents(&c); }
    int l = nd_pick(0, FN); unsigned char *p = vp_bytes(l); zpl_file_error e = ZPL_FILE_ERROR_NONE; px_f[1].exists = nd_pick(0, 1); px_f[1].n = px_f[1].exists ? 2 : 0; CHECK(zpl_file_write_contents("b", p, l, &e) && e == ZPL_FILE_ERROR_NONE, "stored"); CHECK(px_f[1].n == l, "everything is written"); for (int i = 0; i < l; i++) CHECK(px_f[1].d[i] == p[i], "contents"); free(p); quiet(); vp_onlyshort = 0; REACHED();
}
//@ x=h_store q="FN=4,FA=2,T=60" t="FN=6,FA=3,T=300" what="storing a whole file: success exactly means the file holds the bytes, for every failure and short write; nothing stays open"
void h_store(void) {
    world(-1); px_f[1].exists = nd_pick(0, 1); px_f[1].n = px_f[1].exists ? 2 : 0; px_faults = FA; int l = nd_pick(0, FN), base; unsigned char *p = vp_bytes(l); base = vp_heapmark(); zpl_file_error e = ZPL_FILE_ERROR_NONE; zpl_b32 r = nd_pick(0, 1) ? zpl_file_write_contents("b", p, l, &e) : zpl_file_write_contents("b", p, l, NULL);
    quiet(); if (r) { CHECK(px_f[1].exists && px_f[1].n == l, "everything is written"); for (int i = 0; i < l; i++) CHECK(px_f[1].d[i] == p[i], "contents"); } else CHECK(px_faults < FA, "fails only when the system does"); CHECK(vp_heapmark() == base, "no leak"); free(p); REACHED();
}
//@ x=h_lines q="FN=4,FA=1,T=60" t="FN=5,FA=2,T=400,J=4" what="reading a file as lines: the lines are those of the contents, for every byte and failure"
void h_lines(void) {
    world(nd_pick(0, FN + 1) - 1); for (int i = 0; i < px_f[0].n; i++) ASSUME(px_f[0].d[i]); px_faults = FA; zpl_array(char *) l = 0; char *c = zpl_file_read_lines(vp_heap(), &l, "a", 0); quiet(); CHECK(c != NULL && l != NULL, "delivered");
    if (px_faults == FA && px_f[0].exists) { int k = 0, st = 0, n = px_f[0].n; for (int i = 0; i <= n; i++) if ((i == n && st < n) || (i < n && px_f[0].d[i] == '\n')) { CHECK(k < zpl_array_count(l), "no line missing"); char *s = l[k]; int e = i; if (e > st && px_f[0].d[e - 1] == '\r') e--; for (int j = st; j < e; j++) CHECK((unsigned char)s[j - st] == px_f[0].d[j], "line text"); CHECK(!s[e - st], "line end"); k++; st = i + 1; } CHECK(k == zpl_array_count(l), "no line invented"); }
    zpl_array_free(l); zpl_free(vp_heap(), c); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_copy q="FN=4,FA=1,T=60" t="FN=6,FA=3,T=400,J=4" what="copying a file: success exactly means an identical copy, an existing target is refused when asked, for every failure and short transfer; nothing stays open"
void h_copy(void) {
    world(nd_pick(0, FN + 1) - 1); px_f[1].exists = nd_pick(0, 1); px_f[1].n = px_f[1].exists ? FN + 1 : 0; for (int i = 0; i <= FN; i++) px_f[1].d[i] = 0x5a; int had = px_f[1].exists, fe = nd_pick(0, 1); int n = px_f[0].n; static unsigned char ref[PX_CAP]; for (int i = 0; i < n; i++) ref[i] = px_f[0].d[i]; px_faults = FA; static const unsigned MD[4] = { 0644, 0755, 0400, 0777 }; px_f[0].mode = MD[nd_pick(0, 3)];
    int self = nd_pick(0, 1); int r = zpl_fs_copy("a", self ? "a" : "b", fe), j = self ? 0 : 1; quiet(); if (self) { had = px_f[0].exists; if (!fe && !px_f[0].exists) CHECK(!r, "no source"); } CHECK(px_f[0].n == n, "the source is untouched"); for (int i = 0; i < n; i++) CHECK(px_f[0].d[i] == ref[i], "source bytes");
    if (fe && had) { CHECK(!r, "an existing target is refused"); if (!self) { CHECK(px_f[1].n == FN + 1, "and untouched"); for (int i = 0; i <= FN; i++) CHECK(px_f[1].d[i] == 0x5a, "and untouched"); } }
    else if (r) { CHECK(px_f[j].exists && px_f[j].n == n, "same size"); if (!had) CHECK(px_f[j].mode == px_f[0].mode, "a new file gets the permissions of its source"); for (int i = 0; i < n; i++) CHECK(px_f[j].d[i] == ref[i], "same bytes"); } else CHECK(px_faults < FA || !px_f[0].exists, "fails only when the system does or there is no source"); REACHED();
}
//@ x=h_fs q="FA=1,T=60" what="existence, type, write time, removal, moving, directory creation and removal report exactly what the system says, with the documented error kinds"
void h_fs(void) {
    world(nd_pick(0, 1) ? 2 : -1); px_f[0].isdir = px_f[0].exists && nd_pick(0, 1); px_f[1].exists = nd_pick(0, 1); px_f[0].mtime = nd_pick(0, 5) == 5 ? 1 : 77; int ex = px_f[0].exists, dir = px_f[0].isdir, ex1 = px_f[1].exists; px_faults = FA; int op = nd_pick(0, 8);
    if (op == 0) { CHECK(!!zpl_fs_exists("a") == ex, "exists"); }
    else if (op == 1) { int t = zpl_fs_get_type("a"); CHECK(t == (px_faults < FA || !ex ? ZPL_DIR_TYPE_UNKNOWN : dir ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE), "type"); }
    else if (op == 2) { px_f[0].mtime = nd_pick(0, 255) * 1000003l; zpl_file_time t = zpl_fs_last_write_time("a"); CHECK(t == (px_faults < FA || !ex ? 0 : (zpl_file_time)px_f[0].mtime), "write time"); }
    else if (op == 3) { int r = zpl_fs_remove("a"); CHECK(!!r == (px_faults == FA && ex), "removal reported"); CHECK(px_f[0].exists == (ex && !r), "removed"); }
    else if (op == 4) { ASSUME(!dir); int r = zpl_fs_move("a", "b"); if (r) CHECK(ex && !px_f[0].exists && px_f[1].exists && px_f[1].n == 2, "moved"); else { CHECK(px_faults < FA || !ex || ex1, "fails only when it must"); CHECK(px_f[0].exists == ex, "nothing is lost"); } }
    else if (op == 5 || op == 6) { static const int er[] = {EPERM, EACCES, EEXIST, ENAMETOOLONG, ENOENT, ENOTEMPTY, EIO}; int w = nd_pick(0, 6); px_f[0].mtime = er[w]; zpl_file_error e = op == 5 ? zpl_path_mkdir("b", 0755) : zpl_path_rmdir("a"); int ok = op == 5 ? !ex1 : ex && dir; CHECK((e == ZPL_FILE_ERROR_NONE) == (px_faults == FA && ok), "outcome reported");
        if (px_faults < FA) CHECK(e == (w < 2 ? ZPL_FILE_ERROR_PERMISSION : w == 2 ? (op == 5 ? ZPL_FILE_ERROR_EXISTS : ZPL_FILE_ERROR_UNKNOWN) : w == 3 ? ZPL_FILE_ERROR_NAME_TOO_LONG : w == 4 ? (op == 6 ? ZPL_FILE_ERROR_NOT_EXISTS : ZPL_FILE_ERROR_UNKNOWN) : w == 5 ? (op == 6 ? ZPL_FILE_ERROR_NOT_EMPTY : ZPL_FILE_ERROR_UNKNOWN) : ZPL_FILE_ERROR_UNKNOWN), "error kind"); if (e == ZPL_FILE_ERROR_NONE && op == 5) CHECK(px_f[1].isdir && px_f[1].mode == 0755, "directory made"); }
    else if (op == 7) { zpl_file f; px_faults = 0; ASSUME(ex && !dir); px_f[0].mtime = 10; CHECK(zpl_file_open(&f, "a") == ZPL_FILE_ERROR_NONE, "opened"); CHECK(zpl_file_has_changed(&f), "first look"); CHECK(!zpl_file_has_changed(&f), "nothing changed"); static const long D[4] = { 0, 1, -1, 1l << 33 }; long d = D[nd_pick(0, 3)]; px_f[0].mtime += d; CHECK(!!zpl_file_has_changed(&f) == (d != 0), "a changed write time is noticed"); zpl_file_close(&f); quiet(); }
    else { zpl_file f; int base = vp_heapmark(); int e = zpl_file_temp(&f); if (e == ZPL_FILE_ERROR_NONE) { px_faults = 0; CHECK(zpl_file_write(&f, "xyz", 3) && px_f[2].n == 3 && zpl_file_tell(&f) == 3, "usable"); CHECK(!zpl_file_has_changed(&f), "temporary files do not track changes"); CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "closed"); } else CHECK(px_faults < FA, "fails only when the system does"); CHECK(px_streams == 0 && vp_heapmark() == base, "no stream is leaked"); quiet(); }
    REACHED();
}
//@ x=h_pipe q="FA=1,T=60" what="writing sequentially to something that cannot seek (pipe, terminal) appends every byte; the standard streams are descriptors 0 to 2"
void h_pipe(void) {
    world(0); px_pipe = 1; zpl_file f; CHECK(zpl_file_open_mode(&f, ZPL_FILE_MODE_WRITE, "a") == ZPL_FILE_ERROR_NONE, "opened"); int t = 0; static unsigned char ref[PX_CAP]; for (int k = 0; k < 3; k++) { int l = nd_pick(0, 2); unsigned char *p = vp_bytes(l); CHECK(zpl_file_write(&f, p, l), "written"); for (int i = 0; i < l; i++) ref[t++] = p[i]; free(p); } CHECK(px_f[0].n == t, "everything arrives"); for (int i = 0; i < t; i++) CHECK(px_f[0].d[i] == ref[i], "in order"); zpl_file_close(&f); quiet(); px_pipe = 0;
    for (int i = 0; i < 3; i++) { zpl_file *s = zpl_file_get_standard((zpl_file_standard_type)i); CHECK(s && s->fd.i == i && s->ops.write_at != NULL, "standard stream"); } REACHED();
}
//@ x=h_wide q="T=60" what="any 64-bit offset within a petabyte: positioned reads deliver what is there, positions are kept exactly"
void h_wide(void) {
    world(3); zpl_file f; CHECK(zpl_file_open_mode(&f, ZPL_FILE_MODE_READ, "a") == ZPL_FILE_ERROR_NONE, "opened"); zpl_i64 at = nd_i64(); ASSUME(at >= 0 && at <= (1ll << 50)); unsigned char b[2] = { 0, 0 }; zpl_isize got = -1; int r = zpl_file_read_at_check(&f, b, 2, at, &got); int w = at >= 3 ? 0 : at == 2 ? 1 : 2; CHECK(r && got == w, "delivers what is there"); for (int i = 0; i < w; i++) CHECK(b[i] == px_f[0].d[at + i], "bytes read");
    CHECK(zpl_file_seek(&f, at) == at && zpl_file_tell(&f) == at, "position"); CHECK(zpl_file_skip(&f, 5) == at + 5 && zpl_file_size(&f) == 3 && zpl_file_tell(&f) == at + 5, "skip, and asking for the size keeps the position"); zpl_file_close(&f); quiet(); REACHED();
}
//@ x=h_large q="PX_CAP=70008,T=60,STEPS=30000000" what="files of thousands of bytes, around buffer sizes, with short transfers: loading, storing, copying and reading lines keep every byte"
void h_large(void) {
    static int const L[5] = { 255, 4096, 4097, 8193, 70000 }; int n = L[nd_pick(0, 4)], how = nd_pick(0, 3); world(0); px_f[0].n = n; for (int i = 0; i < n; i++) px_f[0].d[i] = (unsigned char)('a' + i % 26); unsigned char x = nd_u8(); ASSUME(x && x != '\n' && x != '\r' && x != ' ' && x != '\t' && x != '\v' && x != '\f'); px_f[0].d[n - 1] = x; px_faults = 2; vp_onlyshort = 1;
    if (how == 0) { zpl_file_contents c = zpl_file_read_contents(vp_heap(), 1, "a"); CHECK(c.data && c.size == n, "everything is read"); for (int i = 0; i < n; i++) CHECK(((unsigned char *)c.data)[i] == px_f[0].d[i], "contents"); CHECK(((unsigned char *)c.data)[n] == 0, "terminated"); zpl_file_free_contents(&c); }
    else if (how == 1) { zpl_file_error e = ZPL_FILE_ERROR_NONE; CHECK(zpl_file_write_contents("b", px_f[0].d, n, &e) && e == ZPL_FILE_ERROR_NONE, "stored"); CHECK(px_f[1].n == n, "everything is written"); for (int i = 0; i < n; i++) CHECK(px_f[1].d[i] == px_f[0].d[i], "contents"); }
    else if (how == 2) { vp_onlyshort = 0; px_faults = 0; CHECK(zpl_fs_copy("a", "b", 0), "copied"); CHECK(px_f[1].n == n, "everything is copied"); for (int i = 0; i < n; i++) CHECK(px_f[1].d[i] == px_f[0].d[i], "contents"); }
    else { for (int i = 99; i < n - 1; i += 100) px_f[0].d[i] = '\n'; zpl_array(char *) l = 0; char *c = zpl_file_read_lines(vp_heap(), &l, "a", 0); CHECK(zpl_array_count(l) == (n + 99) / 100, "every line"); for (int k = 0; k < zpl_array_count(l); k++) CHECK(l[k] == c + 100 * k && l[k][0] == (char)(k * 100 == n - 1 ? x : px_f[0].d[100 * k]), "line start"); zpl_array_free(l); zpl_free(vp_heap(), c); }
    vp_onlyshort = 0; quiet(); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_plain q="T=60" what="positioned reads and writes without a count, every offset, length and failure: transferred completely where the file allows, failure reported, nothing else touched"
void h_plain(void) {
    world(nd_pick(0, 3)); int n = px_f[0].n; static unsigned char ref[PX_CAP]; for (int i = 0; i < n; i++) ref[i] = px_f[0].d[i]; zpl_file f; CHECK(zpl_file_open_mode(&f, (zpl_file_mode)(ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW), "a") == ZPL_FILE_ERROR_NONE, "opened"); int fd = (int)f.fd.i - PX_BASE, cur = nd_pick(0, n), at = nd_pick(0, n + 1), l = nd_pick(0, 3); CHECK(zpl_file_seek(&f, cur) == cur, "position"); px_faults = nd_pick(0, 1); int had = px_faults; unsigned char *p = vp_bytes(l), o[4]; for (int i = 0; i < l; i++) o[i] = p[i];
    if (nd_pick(0, 1)) { int r = zpl_file_read_at(&f, p, l, at), av = at >= n ? 0 : n - at < l ? n - at : l, flt = px_faults != had; if (!flt) { CHECK(r, "reading succeeds"); for (int i = 0; i < l; i++) CHECK(p[i] == (i < av ? ref[at + i] : o[i]), "bytes read"); } CHECK(px_f[0].n == n && px_fd[fd].pos == cur, "reading leaves file and position"); }
    else { int r = zpl_file_write_at(&f, p, l, at), flt = px_faults != had; if (!flt) { CHECK(r, "writing succeeds"); CHECK(px_f[0].n == (l && at + l > n ? at + l : n), "size"); for (int i = 0; i < px_f[0].n; i++) CHECK(px_f[0].d[i] == (i >= at && i < at + l ? o[i - at] : i < n ? ref[i] : 0), "contents"); } if (at != cur) CHECK(px_fd[fd].pos == cur, "position"); }
    px_faults = 0; zpl_file_close(&f); free(p); quiet(); REACHED();
}
