// P25: tar archives: packing against an independent reading of the ustar layout, round trip, arbitrary headers, extraction
static void vp_hook(const char *p);
#define PX_HOOK(p) vp_hook(p)
#include "vp_posix.h"
#include "vp.h"
#ifndef FA
#define FA 1
#endif
static int px_fault(int kinds) { if (px_faults <= 0) return 0; int k = nd_pick(0, kinds); if (k) px_faults--; return k; }
static int hook_on, hooked;
static void vp_hook(const char *p) { if (!hook_on) return; hooked++; CHECK(p[0] == 'd', "stays below the destination"); if (!p[1]) return; CHECK(p[1] == '/', "stays below the destination"); int st = 2; for (int i = 2;; i++) if (p[i] == '/' || !p[i]) { CHECK(!(i - st == 2 && p[st] == '.' && p[st + 1] == '.'), "never climbs out of the destination"); st = i + 1; if (!p[i]) break; } }
static void world(void) { for (int i = 0; i < PX_FD; i++) px_fd[i].open = 0; px_faults = px_opens = px_closes = px_bad = 0; px_catch = -1; hook_on = hooked = 0; for (int i = 0; i < PX_FILES; i++) { px_names[i] = 0; px_f[i].exists = px_f[i].isdir = px_f[i].n = 0; px_f[i].mode = 0644; px_f[i].mtime = 01234567; } vp_live = 0; vp_fail_at = -1; }
static char nm[128]; static void name_of(int n) { for (int i = 0; i < n; i++) nm[i] = (char)('a' + i % 26); nm[n] = 0; }
/* octal field up to its first non-digit; -1 when empty */
static long oct(unsigned char const *p, int w) { long v = 0; int i = 0; while (i < w && p[i] == ' ') i++; int st = i; while (i < w && p[i] >= '0' && p[i] <= '7') v = v * 8 + (p[i++] - '0'); return i == st ? -1 : v; }
static void member(unsigned char const *h, const char *name, int f) {
    int l = rlen(name); for (int i = 0; i < 100; i++) CHECK(h[i] == (i < l ? (unsigned char)name[i] : 0), "member name"); CHECK(oct(h + 124, 12) == px_f[f].n, "member size"); CHECK(oct(h + 136, 12) == px_f[f].mtime || (px_faults < FA && !oct(h + 136, 12)), "modification time"); CHECK(oct(h + 100, 8) == 0664, "permissions: readable by all, written by owner and group"); CHECK(h[156] == '0', "regular file");
    long s = 0; for (int i = 0; i < 512; i++) s += i >= 148 && i < 156 ? 32 : h[i]; CHECK(oct(h + 148, 8) == s, "header checksum"); for (int i = 157; i < 257; i++) CHECK(h[i] == 0, "no link name");
    unsigned char const *d = h + 512; for (int i = 0; i < (px_f[f].n + 511) / 512 * 512; i++) CHECK(d[i] == (i < px_f[f].n ? px_f[f].d[i] : 0), "member contents and padding");
}
//@ x=h_pack q="FN=2,FA=1,T=60,J=4" t="FN=4,FA=2,T=600,J=8" what="packing files (one to two members, names of 1 to 120 characters, a directory among them, read failures): every header field, checksum, contents, padding and end mark; failures are reported"
#ifndef FN
#define FN 2
#endif
void h_pack(void) {
    world(); int len[] = {1, 11, 12, 13, 99, 100, 120}, l = len[nd_pick(0, 6)]; name_of(l); px_names[0] = nm; char const *paths[3] = {nm, "b", "c"}; px_f[0].exists = nd_pick(0, 1); px_f[0].n = nd_pick(0, FN); px_f[1].exists = 1; px_f[1].n = 1; nd_bytes(px_f[0].d, px_f[0].n); nd_bytes(px_f[1].d, 1); px_f[2].exists = px_f[2].isdir = 1; int cnt = nd_pick(0, 3);
    zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); px_faults = FA; zpl_isize r = zpl_tar_pack(&ar, paths, cnt); CHECK(px_openfds() == 0 && !px_bad && px_opens == px_closes, "every member is closed"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz);
    int ok = px_f[0].exists && l < 100; if (cnt && !ok) CHECK(r < 0, "a missing member or a name that does not fit is reported"); else if (px_faults == FA) CHECK(r == 0, "packed");
    if (r == 0) { int at = 0; if (cnt >= 1) { member(b, nm, 0); at += 512 + (px_f[0].n + 511) / 512 * 512; } if (cnt >= 2) { member(b + at, "b", 1); at += 1024; } if (cnt == 3 && px_faults < FA && sz == at + 1536) at += 512; /* a failed status request leaves a directory unrecognised: an empty member */ CHECK(sz == at + 1024, "end mark"); for (int i = at; i < sz; i++) CHECK(b[i] == 0, "end mark"); }
    zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
/* collecting callback */
static int seen, want_n, stop_at; static zpl_isize arsz; static zpl_isize sink(zpl_file *archive, zpl_tar_record *rec, void *ud) {
    CHECK(ud == (void *)&seen, "user data is passed on"); CHECK(rec->length >= 0 && rec->offset >= 512 && rec->offset + rec->length <= arsz, "the member lies inside the archive"); int z = 0; while (rec->path[z]) z++; CHECK(z <= 100, "the name stays inside its field");
    if (want_n) { CHECK(seen < want_n && rec->error == ZPL_TAR_ERROR_NONE && rec->type == ZPL_TAR_TYPE_REGULAR, "member"); char const *w = seen ? "b" : nm; for (int i = 0; i <= rlen(w); i++) CHECK(rec->path[i] == w[i], "name"); CHECK(rec->length == px_f[seen].n, "length"); unsigned char t[PX_CAP]; zpl_isize got = 0; if (rec->length) CHECK(zpl_file_read_at_check(archive, t, rec->length, rec->offset, &got) && got == rec->length, "contents are there"); for (int i = 0; i < rec->length; i++) CHECK(t[i] == px_f[seen].d[i], "contents"); }
    seen++; return seen == stop_at ? 1 : 0;
}
//@ x=h_round q="FN=3,T=60,J=4" t="FN=8,T=300,J=8" what="unpacking what was packed delivers the same names, lengths and contents in order, and stops when the receiver asks"
void h_round(void) {
    world(); name_of(nd_pick(0, 1) ? 99 : 5); px_names[0] = nm; px_f[0].exists = px_f[1].exists = 1; px_f[0].n = nd_pick(0, FN); px_f[1].n = nd_pick(0, 1); nd_bytes(px_f[0].d, px_f[0].n); nd_bytes(px_f[1].d, px_f[1].n); char const *paths[2] = {nm, "b"}; int cnt = nd_pick(0, 2); zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); CHECK(zpl_tar_pack(&ar, paths, cnt) == 0, "packed"); zpl_file_seek(&ar, 0);
    zpl_file_stream_buf(&ar, &arsz); seen = 0; want_n = cnt + 1; stop_at = nd_pick(0, 2); zpl_isize r = zpl_tar_unpack(&ar, sink, &seen); if (stop_at && stop_at <= cnt) CHECK(seen == stop_at && r < 0, "interrupted"); else CHECK(seen == cnt && r == 0, "every member is delivered"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_any q="SF=3,T=60,J=4" t="SF=5,T=900,J=8" what="arbitrary size and checksum fields, unterminated fields and archives cut anywhere: unpacking terminates and never leaves the archive"
#ifndef SF
#define SF 3
#endif
void h_any(void) {
    world(); static unsigned char a[2048]; for (int i = 0; i < 2048; i++) a[i] = 0; int full = nd_pick(0, 1), ln[] = {0, 1, 511, 512, 513, 600, 1023, 1024, 1100, 1536, 2048}, n = ln[nd_pick(0, 10)]; for (int i = 0; i < 100; i++) a[i] = full || i < 4 ? 'n' : 0; for (int i = 124; i < 136; i++) a[i] = full ? '0' : 0; int at = full && nd_pick(0, 1) ? 136 - SF : 124; for (int i = 0; i < SF; i++) a[at + i] = nd_u8(); if (full) for (int i = 136; i < 148; i++) a[i] = '7'; for (int i = 148; i < 156; i++) a[i] = full ? '1' : 0; a[148] = nd_u8(); a[156] = nd_u8();
    unsigned char *p = malloc((size_t)n); for (int i = 0; i < n; i++) p[i] = a[i]; zpl_file ar; zpl_file_stream_open(&ar, vp_heap(), p, n, (zpl_file_stream_flags)0); arsz = n; seen = want_n = stop_at = 0; zpl_isize r = zpl_tar_unpack(&ar, sink, &seen); CHECK(r <= 0, "an error or success"); if (n > 0 && n < 512) CHECK(r < 0 && !seen, "a cut header is rejected"); if (!n) CHECK(r == 0 && !seen, "an empty archive holds nothing"); CHECK(seen <= n / 512, "a member per header"); zpl_file_close(&ar); free(p); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_extract q="NL=5,FA=1,T=60,J=4" t="NL=7,FA=2,T=900,J=8" what="extracting a member of every name over . / and a letter, any type, with failures: writes only below the destination, the file gets the contents, failures are reported, nothing stays open"
#ifndef NL
#define NL 5
#endif
void h_extract(void) {
    world(); px_catch = 1; hook_on = 1; char *name = vp_str(NL); for (int i = 0; name[i]; i++) ASSUME(name[i] == '.' || name[i] == '/' || name[i] == 'x'); unsigned char *p = vp_bytes(6); zpl_file ar; zpl_file_stream_open(&ar, vp_heap(), p, 6, (zpl_file_stream_flags)0); zpl_tar_record rec = {0}; rec.path = name; rec.offset = 1; rec.length = nd_pick(0, 4); rec.type = nd_pick(0, 3) ? '0' : '5'; rec.error = nd_pick(0, 3) ? 0 : ZPL_TAR_ERROR_BAD_CHECKSUM; px_faults = FA;
    zpl_isize r = zpl_tar_default_unpack_file(&ar, &rec, (void *)"d"); CHECK(px_openfds() == 0 && !px_bad, "nothing stays open"); if (rec.type != '0' || rec.error) CHECK(r == 0 && px_opens == 0, "skipped"); else { int climbs = 0, st = 0; for (int i = 0;; i++) if (!name[i] || name[i] == '/') { if (i - st == 2 && name[st] == '.' && name[st + 1] == '.') climbs = 1; st = i + 1; if (!name[i]) break; } if (climbs) CHECK(px_opens == 0, "members that climb are not extracted"); else if (r == 0) { CHECK(px_f[1].exists && px_f[1].n == rec.length, "extracted"); for (int i = 0; i < rec.length; i++) CHECK(px_f[1].d[i] == p[1 + i], "contents"); } else CHECK(px_faults < FA, "fails only when the system does"); }
    zpl_file_close(&ar); free(p); free(name); CHECK(vp_live == 0, "no leak"); REACHED();
}
static int ls_n, ls_o, ls_ok; static char const LS[2][2] = {"a", "b"};
zpl_string vp_list(zpl_allocator al, char const *d, zpl_b32 rec) { ls_ok = d && d[0] == 'D' && !d[1] && rec; zpl_string s = zpl_string_make_reserve(al, 4); for (int i = 0; i < ls_n; i++) { s = zpl_string_append_length(s, LS[i ^ ls_o], 1); s = zpl_string_append_length(s, "\n", 1); } return s; }
//@ x=h_dir q="FN=3,T=60,J=4" repl="zpl_path_dirlist:vp_list" what="packing a directory packs every listed file in order and keeps no memory; unpacking into a directory writes every member below it with its contents"
void h_dir(void) {
    world(); ls_n = nd_pick(0, 2); ls_o = nd_pick(0, 1); px_f[0].exists = px_f[1].exists = 1; px_f[0].n = nd_pick(0, FN); px_f[1].n = nd_pick(0, 1); nd_bytes(px_f[0].d, px_f[0].n); nd_bytes(px_f[1].d, px_f[1].n);
    zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); int l0 = vp_live; CHECK(zpl_tar_pack_dir(&ar, "D", vp_heap()) == 0 && ls_ok, "packs the listed files"); CHECK(px_openfds() == 0 && !px_bad, "every member is closed"); (void)l0;
    zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz); int at = 0; for (int i = 0; i < ls_n; i++) { member(b + at, LS[i ^ ls_o], i ^ ls_o); at += 512 + (px_f[i ^ ls_o].n + 511) / 512 * 512; } CHECK(sz == at + 1024, "nothing else but the end mark");
    hook_on = 1; px_catch = 2; px_names[0] = "zz"; px_names[1] = "zy"; px_f[2].exists = 0; px_f[2].n = 0; zpl_file_seek(&ar, 0); CHECK(zpl_tar_unpack_dir(&ar, "d") == 0, "unpacks"); CHECK(hooked >= ls_n && px_openfds() == 0 && !px_bad, "below the destination");
    if (ls_n) { int l = (ls_n - 1) ^ ls_o; CHECK(px_f[2].n == px_f[l].n && !memcmp(px_f[2].d, px_f[l].d, px_f[l].n), "contents of the last member"); } else CHECK(!px_f[2].exists, "nothing written"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_large q="PX_CAP=9216,T=60,STEPS=30000000" what="members around the block and buffer sizes: padded to exactly the next block, contents whole, and unpacking into a directory restores every byte"
void h_large(void) {
    static int const L[8] = { 511, 512, 513, 1024, 4095, 4096, 4097, 9216 }; world(); int n = L[nd_pick(0, 7)]; px_f[0].exists = px_f[1].exists = 1; px_f[0].n = n; px_f[1].n = nd_pick(0, 1) ? 512 : 7; for (int i = 0; i < n; i++) px_f[0].d[i] = (unsigned char)(i * 5 + 1); px_f[0].d[n - 1] = nd_u8(); for (int i = 0; i < px_f[1].n; i++) px_f[1].d[i] = (unsigned char)(i + 3); char const *paths[2] = { "a", "b" };
    zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); CHECK(zpl_tar_pack(&ar, paths, 2) == 0, "packed"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz); int at = 512 + (n + 511) / 512 * 512; member(b, "a", 0); member(b + at, "b", 1); CHECK(sz == at + 512 + 512 + 1024, "end mark");
    static unsigned char o[9216]; for (int i = 0; i < n; i++) o[i] = px_f[0].d[i]; px_f[0].exists = 0; px_f[0].n = 0; px_names[0] = "d/a"; px_names[1] = "d/b"; px_f[1].exists = 0; px_f[1].n = 0; px_names[2] = "d"; px_f[2].exists = px_f[2].isdir = 1; zpl_file_seek(&ar, 0); CHECK(zpl_tar_unpack_dir(&ar, "d") == 0, "unpacked"); CHECK(px_f[0].exists && px_f[0].n == n, "length"); for (int i = 0; i < n; i++) CHECK(px_f[0].d[i] == o[i], "contents"); CHECK(px_f[1].n == 512 || px_f[1].n == 7, "length"); for (int i = 0; i < px_f[1].n; i++) CHECK(px_f[1].d[i] == (unsigned char)(i + 3), "contents"); CHECK(px_openfds() == 0 && !px_bad, "closed"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_base q="T=60,STEPS=30000000" what="extracting below a destination of any length around the longest path: written to exactly that path or refused"
void h_base(void) {
    world(); px_catch = 1; int l = ZPL_MAX_PATH - nd_pick(0, 12), m = nd_pick(1, 6), sl = nd_pick(0, 1); static char base[ZPL_MAX_PATH + 2], full[ZPL_MAX_PATH + 32]; for (int i = 0; i < l; i++) base[i] = (char)(i % 50 == 49 ? '/' : 'd'); if (l > 0) base[l - 1] = sl ? '/' : 'd'; base[l] = 0; unsigned char *p = vp_bytes(3); zpl_file ar; zpl_file_stream_open(&ar, vp_heap(), p, 3, (zpl_file_stream_flags)0);
    char *name = (char *)malloc(m + 1); for (int i = 0; i < m; i++) name[i] = i == 2 && m > 4 ? '/' : 'x'; name[m] = 0; memcpy(full, base, l); int n = l; if (!sl) full[n++] = '/'; memcpy(full + n, name, m + 1); n += m; px_names[0] = full; zpl_tar_record rec = {0}; rec.path = name; rec.length = 3; rec.type = '0';
    zpl_isize r = zpl_tar_default_unpack_file(&ar, &rec, base); if (r == 0) { CHECK(n < ZPL_MAX_PATH, "fits a path"); CHECK(px_f[0].exists && px_f[0].n == 3 && !memcmp(px_f[0].d, p, 3), "written to exactly that path"); } else CHECK(!px_f[0].exists && n + 2 >= ZPL_MAX_PATH, "refused only when it does not fit"); CHECK(px_openfds() == 0 && !px_bad, "closed"); zpl_file_close(&ar); free(p); free(name); REACHED();
}
//@ x=h_end q="T=60,J=4" what="one to three members, then an end mark, half of one, nothing or a cut header; a receiver returning zero, a negative or a positive number: every member until the receiver interrupts, and an archive without end mark is complete"
static int e_ret[3], e_seen; static zpl_isize e_sink(zpl_file *archive, zpl_tar_record *rec, void *ud) { (void)archive; CHECK(!ud && rec->length == 1 && rec->offset == 512 + 1024 * e_seen && rec->error == 0, "member"); return e_ret[e_seen++]; }
void h_end(void) {
    world(); static unsigned char a[3 * 1024 + 1024]; int cnt = nd_pick(1, 3), tail[] = { 0, 1, 512, 1024 }, t = tail[nd_pick(0, 3)]; px_f[0].exists = 1; px_f[0].n = 1; px_f[0].d[0] = 7; nm[0] = 'a'; nm[1] = 0; px_names[0] = nm; char const *paths[3] = { nm, nm, nm }; zpl_file w; zpl_file_stream_new(&w, vp_heap()); CHECK(zpl_tar_pack(&w, paths, cnt) == 0, "packed"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&w, &sz); CHECK(sz == 1024 * cnt + 1024, "size"); int n = 1024 * cnt + t; unsigned char *p = malloc((size_t)n); memcpy(p, b, (size_t)n); if (t == 1) p[n - 1] = 'x'; zpl_file_close(&w);
    int stop = -1; for (int i = 0; i < 3; i++) { e_ret[i] = nd_pick(0, 2) - 1; if (e_ret[i] > 0 && i < cnt && stop < 0) stop = i; } e_seen = 0; zpl_file ar; zpl_file_stream_open(&ar, vp_heap(), p, n, (zpl_file_stream_flags)0); zpl_isize r = zpl_tar_unpack(&ar, e_sink, NULL);
    if (stop >= 0) CHECK(r == -(ZPL_TAR_ERROR_INTERRUPTED) && e_seen == stop + 1, "interrupted there"); else { CHECK(e_seen == cnt, "every member"); CHECK(t == 1 ? r < 0 : r == 0, "complete unless a header is cut"); } zpl_file_close(&ar); free(p); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_size repl="zpl_file_size:vp_size" q="T=60" what="member sizes around the largest the header holds: refused, and nothing is written, or recorded exactly"
static zpl_i64 v_size; zpl_i64 vp_size(zpl_file *f) { (void)f; return v_size; }
void h_size(void) {
    world(); px_f[0].exists = 1; px_f[0].n = 1; nm[0] = 'a'; nm[1] = 0; px_names[0] = nm; static zpl_i64 const S[] = { 0x1ffffffff, 0x200000000, 0x200000001, 0x3ffffffff, 0x1000000000, 0x7fffffffffffffff }; int k = nd_pick(0, 5); v_size = S[k]; char const *paths[1] = { nm }; zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); zpl_isize r = zpl_tar_pack(&ar, paths, 1); CHECK(r < 0, "reported: it does not fit, or the file ended early"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz); if (k) CHECK(!sz, "nothing is written for a member that does not fit"); else if (sz >= 512) CHECK(oct(b + 124, 12) == S[k], "recorded size"); CHECK(px_openfds() == 0 && !px_bad, "closed"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_grow repl="zpl_file_size:vp_size" q="T=60" what="a member that grows or shrinks while it is packed: exactly the announced length is archived, or the failure is reported"
void h_grow(void) {
    world(); px_f[0].exists = 1; px_f[0].n = nd_pick(0, 4); nd_bytes(px_f[0].d, px_f[0].n); nm[0] = 'a'; nm[1] = 0; px_names[0] = nm; v_size = nd_pick(0, 3); char const *paths[1] = { nm }; zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); zpl_isize r = zpl_tar_pack(&ar, paths, 1); if (px_f[0].n < v_size) CHECK(r < 0, "a member that ended early is reported"); else { CHECK(r == 0, "packed"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz); px_f[0].n = (int)v_size; member(b, nm, 0); CHECK(sz == 512 + (v_size ? 512 : 0) + 1024, "exactly one member and the end mark"); } CHECK(px_openfds() == 0 && !px_bad, "closed"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
//@ x=h_skip q="T=60,J=4" what="directories and a missing file anywhere in the list: directories are skipped and every file after them is packed, a missing file is reported"
void h_skip(void) {
    world(); px_names[0] = "a"; px_names[1] = "b"; px_names[2] = "c"; px_f[0].exists = px_f[1].exists = px_f[2].exists = px_f[2].isdir = 1; px_f[0].n = 2; px_f[1].n = 1; nd_bytes(px_f[0].d, 2); nd_bytes(px_f[1].d, 1); static char const *const N4[4] = { "a", "b", "c", "gone" }; char const *paths[4]; int k[4], miss = 0, cnt = nd_pick(0, 4); for (int i = 0; i < cnt; i++) { k[i] = nd_pick(0, 3); paths[i] = N4[k[i]]; miss |= k[i] == 3; }
    zpl_file ar; zpl_file_stream_new(&ar, vp_heap()); zpl_isize r = zpl_tar_pack(&ar, paths, cnt); if (miss) CHECK(r < 0, "a missing file is reported"); else { CHECK(r == 0, "packed"); zpl_isize sz; unsigned char *b = zpl_file_stream_buf(&ar, &sz); int at = 0; for (int i = 0; i < cnt; i++) if (k[i] < 2) { member(b + at, N4[k[i]], k[i]); at += 1024; } CHECK(sz == at + 1024, "every file and the end mark"); } CHECK(px_openfds() == 0 && !px_bad && px_opens == px_closes, "closed"); zpl_file_close(&ar); CHECK(vp_live == 0, "no leak"); REACHED();
}
