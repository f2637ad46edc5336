// P51: console output, processor count and dynamic libraries over modelled system calls
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
static int fault_(void); static unsigned char out_[2][32]; static int n_[2], pos_[2], seek_, bad_;
static int strm_(int fd) { if (fd == 1 || fd == 2) return fd - 1; bad_++; errno = EBADF; return -1; }
off_t lseek(int fd, off_t o, int w) { int k = strm_(fd); if (k < 0) return -1; if (!seek_) { errno = ESPIPE; return -1; } pos_[k] = (int)(o + (w == SEEK_CUR ? pos_[k] : w == SEEK_END ? n_[k] : 0)); return pos_[k]; }
static long put_(int k, const void *b, size_t n, long at) { if (fault_()) { errno = EIO; return -1; } for (size_t i = 0; i < n; i++) { if (at + (long)i < 0 || at + i >= 32) { bad_++; return -1; } out_[k][at + i] = ((unsigned char const *)b)[i]; } if (at + (long)n > n_[k]) n_[k] = (int)(at + n); return (long)n; }
ssize_t write(int fd, const void *b, size_t n) { int k = strm_(fd); if (k < 0) return -1; long r = put_(k, b, n, seek_ ? pos_[k] : n_[k]); if (r > 0) pos_[k] += (int)r; return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { int k = strm_(fd); if (k < 0) return -1; if (!seek_) { errno = ESPIPE; return -1; } return put_(k, b, n, at); }
static long cpus_; static int asked_;
#define sysconf cpus_conf_
static long cpus_conf_(int n) { if (n != _SC_NPROCESSORS_ONLN) bad_++; asked_++; return cpus_; }
static int dl_open_, dl_flags_; static char const *dl_name_; static char dl_obj_; static void *dl_ret_, *sym_ret_;
#define dlopen dlo_
#define dlclose dlc_
#define dlsym dls_
static void *dlo_(char const *f, int fl) { dl_name_ = f; dl_flags_ = fl; if (dl_ret_) dl_open_++; return dl_ret_; }
static int dlc_(void *h) { if (h != (void *)&dl_obj_) bad_++; dl_open_--; return 0; }
static void *dls_(void *h, char const *n) { if (h != (void *)&dl_obj_ || !dl_open_) bad_++; dl_name_ = n; return sym_ret_; }
#include "vp.h"
static int faults_; static int fault_(void) { if (faults_ > 0 && nd_pick(0, 1)) { faults_--; return 1; } return 0; }
//@ x=h_out q="T=60" t="T=200" what="formatted console output reaches exactly its stream, complete and in order, on terminals, pipes and files; a failed write is reported and adds nothing"
void h_out(void) {
    n_[0] = n_[1] = pos_[0] = pos_[1] = bad_ = 0; seek_ = nd_pick(0, 1); unsigned char ref[2][32]; int rn[2] = { 0, 0 };
    for (int k = 0; k < 3; k++) {
        int err = nd_pick(0, 1), how = nd_pick(0, 1); char *s = vp_str(2); int v = nd_pick(0, 1) ? 7 : -42, l = rlen(s); faults_ = 1; int had = faults_, r;
        if (how) r = zpl_fprintf(zpl_file_get_standard(err ? ZPL_FILE_STANDARD_ERROR : ZPL_FILE_STANDARD_OUTPUT), "%s=%d", s, v); else if (err) r = zpl_printf_err("%s=%d", s, v); else r = zpl_printf("%s=%d", s, v);
        if (faults_ != had) CHECK(r < 0, "a failed write is reported");
        else { CHECK(r >= 0, "success"); for (int i = 0; i < l; i++) ref[err][rn[err]++] = (unsigned char)s[i]; ref[err][rn[err]++] = '='; if (v == 7) ref[err][rn[err]++] = '7'; else { ref[err][rn[err]++] = '-'; ref[err][rn[err]++] = '4'; ref[err][rn[err]++] = '2'; } }
        faults_ = 0; free(s);
    }
    CHECK(!bad_, "no other descriptor"); for (int e = 0; e < 2; e++) { CHECK(n_[e] == rn[e], "everything arrives"); for (int i = 0; i < rn[e]; i++) CHECK(out_[e][i] == ref[e][i], "in order"); } REACHED();
}
//@ x=h_cpu q="T=20" what="the processor description is the system's answer, or one processor marked as a guess when there is none"
void h_cpu(void) {
    bad_ = asked_ = 0; cpus_ = (long)(int)nd_u32(); ASSUME(cpus_ >= -1 && cpus_ <= 4096); zpl_affinity a; memset(&a, 0xA5, sizeof a); zpl_affinity_init(&a); CHECK(!bad_ && asked_ >= 1, "asked for the processors on line");
    if (cpus_ > 0) CHECK(a.is_accurate && a.core_count == cpus_, "the answer"); else CHECK(!a.is_accurate && a.core_count == 1, "a guess of one");
    CHECK(a.threads_per_core >= 1 && a.thread_count == a.core_count * a.threads_per_core, "threads"); int c = nd_in(0, 255); ASSUME(c < a.core_count); CHECK(zpl_affinity_thread_count_for_core(&a, c) == a.threads_per_core, "threads of a core"); zpl_affinity_destroy(&a); REACHED();
}
//@ x=h_dll q="T=20" what="loading, finding a symbol in and unloading a library ask the system for exactly that and hand back its answer"
void h_dll(void) {
    bad_ = dl_open_ = 0; dl_ret_ = nd_pick(0, 1) ? &dl_obj_ : 0; static char o; char name[] = "l", sym[] = "s"; zpl_dll_handle h = zpl_dll_load(name); CHECK((void *)h == dl_ret_ && dl_name_ == name && (dl_flags_ & (RTLD_LAZY | RTLD_NOW)), "loaded or failed as the system said");
    if (dl_ret_) { sym_ret_ = nd_pick(0, 1) ? &o : 0; zpl_dll_proc p = zpl_dll_proc_address(h, sym); CHECK((void *)p == sym_ret_ && dl_name_ == sym, "the symbol's address"); CHECK(dl_open_ == 1, "still loaded"); zpl_dll_unload(h); CHECK(dl_open_ == 0 && !bad_, "unloaded once"); } REACHED();
}
