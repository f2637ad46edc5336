/* A small POSIX file world for harnesses: two files "a" and "b", descriptors with positions, and symbolic faults
 * (failure or short transfer) on every call, at most vp_faults of them per run. Included before the library, so the library's
 * calls bind to these definitions in the executor and in the native replay alike. */
#ifndef VP_POSIX_H
#define VP_POSIX_H
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <errno.h>
#include <stdlib.h>
#include <stdio.h>
#define PX_FILES 3
#ifndef PX_CAP
#define PX_CAP 24
#endif
#define PX_FD 6
#define PX_BASE 40
static struct { unsigned char d[PX_CAP]; int n, exists, isdir; unsigned mode; long mtime; } px_f[PX_FILES];
static struct { int open, file, flags; long pos; } px_fd[PX_FD];
static int px_faults, px_opens, px_closes, px_calls, px_bad, px_pipe;
static int px_fault(int kinds);   /* 0: none, 1: fail, 2: short; defined after vp.h */
static const char *px_names[PX_FILES]; static int px_catch = -1;   /* other names for the files; a file that answers to every unknown path */
#ifndef PX_HOOK
#define PX_HOOK(p) ((void)0)
#endif
static int px_file(const char *p) { for (int i = 0; p && i < PX_FILES; i++) if (px_names[i]) { int k = 0; while (px_names[i][k] && px_names[i][k] == p[k]) k++; if (!px_names[i][k] && !p[k]) return i; } if (px_catch >= 0) return px_catch; if (p && p[0] >= 'a' && p[0] < 'a' + PX_FILES && !p[1]) return p[0] - 'a'; return -1; }
static int px_ok(int fd) { px_calls++; if (fd < PX_BASE || fd >= PX_BASE + PX_FD || !px_fd[fd - PX_BASE].open) { errno = EBADF; return -1; } return fd - PX_BASE; }
static int px_openfds(void) { int n = 0; for (int i = 0; i < PX_FD; i++) n += px_fd[i].open; return n; }
static int px_newfd(int file, int flags) { for (int i = 0; i < PX_FD; i++) if (!px_fd[i].open) { px_fd[i].open = 1; px_fd[i].file = file; px_fd[i].pos = 0; px_fd[i].flags = flags; px_opens++; return PX_BASE + i; } errno = EMFILE; return -1; }
int open(const char *p, int fl, ...) {
    unsigned mode = 0; if (fl & O_CREAT) { __builtin_va_list ap; __builtin_va_start(ap, fl); mode = __builtin_va_arg(ap, unsigned); __builtin_va_end(ap); }
    px_calls++; PX_HOOK(p); if (px_fault(1)) { errno = EACCES; return -1; }
    int i = px_file(p); if (i < 0) { errno = ENOENT; return -1; }
    if (px_f[i].isdir && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if (!px_f[i].exists) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } px_f[i].exists = 1; px_f[i].n = 0; px_f[i].mode = mode & 07777; px_f[i].isdir = 0; }
    else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (fl & O_TRUNC) px_f[i].n = 0;
    return px_newfd(i, fl);
}
int close(int fd) { int k = px_ok(fd); if (k < 0) { px_bad++; return -1; } px_fd[k].open = 0; px_closes++; return 0; }
off_t lseek(int fd, off_t off, int wh) { int k = px_ok(fd); if (k < 0) return -1; if (px_pipe) { errno = ESPIPE; return -1; } off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? px_fd[k].pos : wh == SEEK_END ? px_f[px_fd[k].file].n : -1; if (b < 0 || b + off < 0) { errno = EINVAL; return -1; } px_fd[k].pos = (long)(b + off); return b + off; }
static ssize_t px_read(int k, void *buf, size_t n, long at) { if ((px_fd[k].flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } if (px_f[px_fd[k].file].isdir) { errno = EISDIR; return -1; } int fa = px_fault(2); if (fa == 1 || at < 0 || (ssize_t)n < 0) { errno = fa == 1 ? EIO : EINVAL; return -1; } if (fa == 2 && n > 1) n = n / 2; int f = px_fd[k].file; size_t r = 0; for (; r < n && at + (long)r < px_f[f].n; r++) ((unsigned char *)buf)[r] = px_f[f].d[at + r]; return (ssize_t)r; }
static ssize_t px_write(int k, const void *buf, size_t n, long at) { if ((px_fd[k].flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } int fa = px_fault(2); if (fa == 1 || at < 0 || (ssize_t)n < 0) { errno = fa == 1 ? EIO : EINVAL; return -1; } if (fa == 2 && n > 1) n = n / 2; int f = px_fd[k].file; if (px_fd[k].flags & O_APPEND) at = px_f[f].n; size_t w = 0; if (n) while (px_f[f].n < at && px_f[f].n < PX_CAP) px_f[f].d[px_f[f].n++] = 0; for (; w < n && at + (long)w < PX_CAP; w++) { px_f[f].d[at + w] = ((const unsigned char *)buf)[w]; if (px_f[f].n < at + (int)w + 1) px_f[f].n = (int)(at + (int)w + 1); } if (!w && n) { errno = ENOSPC; return -1; } return (ssize_t)w; }
ssize_t read(int fd, void *b, size_t n) { int k = px_ok(fd); if (k < 0) return -1; ssize_t r = px_read(k, b, n, px_fd[k].pos); if (r > 0) px_fd[k].pos += (int)r; return r; }
ssize_t pread(int fd, void *b, size_t n, off_t at) { int k = px_ok(fd); if (k < 0) return -1; return px_read(k, b, n, at); }
ssize_t write(int fd, const void *b, size_t n) { int k = px_ok(fd); if (k < 0) return -1; ssize_t r = px_write(k, b, n, px_fd[k].pos); if (r > 0) { px_fd[k].pos = (px_fd[k].flags & O_APPEND) ? px_f[px_fd[k].file].n : px_fd[k].pos + (int)r; } return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { int k = px_ok(fd); if (k < 0) return -1; if (px_pipe) { errno = ESPIPE; return -1; } return px_write(k, b, n, at); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    int ko = px_ok(o), ki = px_ok(i); if (ko < 0 || ki < 0) return -1; unsigned char t[PX_CAP]; long at = off ? *off : px_fd[ki].pos; if (n > PX_CAP) n = PX_CAP;
    ssize_t r = px_read(ki, t, n, at); if (r <= 0) return r; ssize_t w = write(o, t, (size_t)r); if (w < 0) return w; if (off) *off += w; else px_fd[ki].pos += (int)w; return w;
}
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned fl) { (void)fl; if (oo) { errno = EINVAL; return -1; } return sendfile(o, i, io, n); }
int ftruncate(int fd, off_t n) { int k = px_ok(fd); if (k < 0) return -1; if (px_fault(1) || n < 0 || n > PX_CAP || (px_fd[k].flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; } int f = px_fd[k].file; while (px_f[f].n < n) px_f[f].d[px_f[f].n++] = 0; px_f[f].n = (int)n; return 0; }
int access(const char *p, int m) { px_calls++; (void)m; int i = px_file(p); if (i < 0 || !px_f[i].exists) { errno = ENOENT; return -1; } return 0; }
static void px_stat(int i, struct stat *s) { char *c = (char *)s; for (size_t k = 0; k < sizeof *s; k++) c[k] = 0; s->st_size = px_f[i].n; s->st_mode = (px_f[i].isdir ? S_IFDIR : S_IFREG) | px_f[i].mode; s->st_mtime = px_f[i].mtime; s->st_ino = (ino_t)(i + 1); s->st_dev = 1; s->st_nlink = 1; }
int stat(const char *p, struct stat *s) { px_calls++; if (px_fault(1)) { errno = EACCES; return -1; } int i = px_file(p); if (i < 0 || !px_f[i].exists) { errno = ENOENT; return -1; } px_stat(i, s); return 0; }
int lstat(const char *p, struct stat *s) { return stat(p, s); }
int fstat(int fd, struct stat *s) { int k = px_ok(fd); if (k < 0) return -1; if (px_fault(1)) { errno = EIO; return -1; } px_stat(px_fd[k].file, s); return 0; }
int unlink(const char *p) { px_calls++; if (px_fault(1)) { errno = EACCES; return -1; } int i = px_file(p); if (i < 0 || !px_f[i].exists || px_f[i].isdir) { errno = i >= 0 && px_f[i].exists ? EISDIR : ENOENT; return -1; } px_f[i].exists = 0; return 0; }
int rmdir(const char *p) { px_calls++; int i = px_file(p); if (px_fault(1)) { errno = (int)px_f[0].mtime; return -1; } if (i < 0 || !px_f[i].exists) { errno = ENOENT; return -1; } if (!px_f[i].isdir) { errno = ENOTDIR; return -1; } px_f[i].exists = 0; return 0; }
int remove(const char *p) { int i = px_file(p); return i >= 0 && px_f[i].exists && px_f[i].isdir ? rmdir(p) : unlink(p); }
int link(const char *a, const char *b) { px_calls++; if (px_fault(1)) { errno = EACCES; return -1; } int i = px_file(a), j = px_file(b); if (i < 0 || j < 0 || !px_f[i].exists) { errno = ENOENT; return -1; } if (px_f[j].exists) { errno = EEXIST; return -1; } px_f[j] = px_f[i]; return 0; }
int rename(const char *a, const char *b) { px_calls++; if (px_fault(1)) { errno = EACCES; return -1; } int i = px_file(a), j = px_file(b); if (i < 0 || j < 0 || !px_f[i].exists) { errno = ENOENT; return -1; } if (i == j) return 0; px_f[j] = px_f[i]; px_f[i].exists = 0; return 0; }
int mkdir(const char *p, mode_t m) { px_calls++; PX_HOOK(p); if (px_catch >= 0) return 0; int i = px_file(p); if (px_fault(1)) { errno = (int)px_f[0].mtime; return -1; } if (i < 0) { errno = ENOENT; return -1; } if (px_f[i].exists) { errno = EEXIST; return -1; } px_f[i].exists = px_f[i].isdir = 1; px_f[i].n = 0; px_f[i].mode = m & 07777; return 0; }
int dup(int fd) { int k = px_ok(fd); if (k < 0) return -1; if (px_fault(1)) { errno = EMFILE; return -1; } int n = px_newfd(px_fd[k].file, px_fd[k].flags); return n; }
#endif
