// P41: virtual memory
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#define mmap vm_mmap
#define mmap64 vm_mmap
#define munmap vm_munmap
#define madvise vm_madvise
#define posix_madvise vm_madvise
#define mremap vm_mremap
#define mprotect vm_mprotect
#define sysconf vm_sysconf
#define getpagesize vm_getpagesize
void *vm_mmap(void *a, size_t n, int prot, int fl, int fd, long off); int vm_munmap(void *a, size_t n); int vm_madvise(void *a, size_t n, int how); long vm_sysconf(int w); int vm_getpagesize(void); int vm_mprotect(void *a, size_t n, int p);
#include "vp.h"
#define PG 4096ul
#define NP 12
#define BASE 0x7f0000000000ul
static char mp[NP], ad[NP]; static int bad, maps, unmaps, mayfail, failed; static unsigned long pgsz = PG;
static int fail(void) { if (mayfail && nd_pick(0, 1)) { failed++; errno = ENOMEM; return 1; } return 0; }
static int range(void *a, size_t n, int *b, int *e) { unsigned long x = (unsigned long)a; if (x < BASE || x >= BASE + NP * PG || n == 0) return 0; unsigned long o = x - BASE; if (o & (PG - 1)) return 0; o /= PG; unsigned long l = (n + PG - 1) / PG; if (l > NP - o) return 0; *b = (int)o; *e = (int)(o + l); return 1; }
void *vm_mmap(void *a, size_t n, int prot, int fl, int fd, long off) {
    maps++; if (prot != (PROT_READ | PROT_WRITE) || !(fl & MAP_ANONYMOUS) || !(fl & MAP_PRIVATE) || (fl & (MAP_SHARED | MAP_FIXED)) || off != 0) bad++; int b = 0, e; if (fail() || !range(a ? a : (void *)(BASE + PG), n, &b, &e)) { errno = ENOMEM; return MAP_FAILED; }
    for (int i = b; i < e; i++) if (mp[i]) { errno = ENOMEM; return MAP_FAILED; } for (int i = b; i < e; i++) mp[i] = 1; return (void *)(BASE + b * PG);
}
static int big; static unsigned long um_a[4], um_n[4];
int vm_munmap(void *a, size_t n) { unmaps++; if (big) { if (unmaps > 4) { bad++; return -1; } um_a[unmaps - 1] = (unsigned long)a; um_n[unmaps - 1] = n; return 0; } int b, e; if (fail() || !range(a, n, &b, &e)) { errno = EINVAL; return -1; } for (int i = b; i < e; i++) mp[i] = 0; return 0; }
int vm_madvise(void *a, size_t n, int how) { int b, e; if (how != MADV_DONTNEED) bad++; if (fail() || !range(a, n, &b, &e)) { errno = EINVAL; return -1; } for (int i = b; i < e; i++) { if (!mp[i]) { errno = ENOMEM; return -1; } ad[i] = 1; } return 0; }
int vm_mprotect(void *a, size_t n, int p) { (void)a; (void)n; (void)p; bad++; return 0; }
long vm_sysconf(int w) { return w == _SC_PAGESIZE ? (long)pgsz : -1; }
int vm_getpagesize(void) { return (int)pgsz; }
static void only(int b, int e) { for (int i = 0; i < NP; i++) CHECK(mp[i] == (i >= b && i < e), "exactly these pages are mapped"); }
static long up(long n) { return (n + (long)PG - 1) / (long)PG; }
static zpl_isize sz(int lo, int hi) { zpl_isize n = (zpl_isize)nd_pick(lo, hi) * (zpl_isize)PG; if (n && nd_pick(0, 1)) { unsigned x = nd_in(1, PG - 1); n -= x; } return n; }
//@ x=h_alloc q="T=40" what="allocating asks for one private read-write range of the requested size, at the requested place, and failure yields no address; freeing releases exactly the range and reports failure; purging discards exactly the range and reports failure"
void h_alloc(void) {
    zpl_isize n = sz(1, 4); int at = nd_pick(0, 3); mayfail = 1; zpl_virtual_memory v = zpl_vm_alloc(at ? (void *)(BASE + at * 2 * PG) : 0, n); CHECK(!bad && maps == 1, "one private anonymous read-write mapping"); if (!v.data) { CHECK(failed, "no address only when the system refused"); only(0, 0); REACHED(); return; }
    CHECK(!failed && v.size == n, "failure is reported"); int b = (int)(((unsigned long)v.data - BASE) / PG), e = b + (int)up(n); if (at) CHECK(b == at * 2, "at the requested place"); only(b, e);
    zpl_b32 p = zpl_vm_purge(v); CHECK(!p == !!failed && !bad, "purging reports failure"); for (int i = 0; i < NP; i++) CHECK(ad[i] == (p && i >= b && i < e), "exactly the range is discarded"); only(b, e);
    failed = 0; zpl_b32 f = zpl_vm_free(v); CHECK(!f == !!failed, "freeing reports failure"); if (f) only(0, 0); else only(b, e); CHECK(unmaps == 1, "one request"); REACHED();
}
//@ x=h_trim q="T=60" what="trimming keeps exactly the asked window mapped for every page window of every mapping, never releases a byte of the window for other sizes or when a request fails, and everything can be freed afterwards"
void h_trim(void) {
    int at = nd_pick(0, 2), pages = nd_pick(1, 5), lead = nd_pick(0, 4), whole = nd_pick(0, 1); ASSUME(lead < pages); zpl_isize n = pages * (zpl_isize)PG, k; if (whole) { int w = nd_pick(1, 5); ASSUME(w <= pages - lead); k = w * (zpl_isize)PG; } else { unsigned x = nd_in(1, 5 * PG); ASSUME((zpl_isize)x <= n - lead * (zpl_isize)PG); k = x; mayfail = 1; }
    for (int i = at; i < at + pages; i++) mp[i] = 1; zpl_virtual_memory v = zpl_vm(zpl_ptr_add(0, BASE + at * PG), n), w; CHECK((unsigned long)v.data == BASE + at * PG && v.size == n, "describes the range"); w = zpl_vm_trim(v, lead * (zpl_isize)PG, k); CHECK((unsigned long)w.data == BASE + (at + lead) * PG && w.size == k, "describes the window");
    long wp = up(k); for (int i = 0; i < NP; i++) { if (i >= at + lead && i < at + lead + wp) CHECK(mp[i], "the window stays mapped"); else if (i < at || i >= at + pages) CHECK(!mp[i], "nothing else is mapped"); else if (whole) CHECK(!mp[i], "the rest is released"); } CHECK(maps == 0, "nothing is mapped anew");
    mayfail = 0; if (whole) { CHECK(zpl_vm_free(w), "freed"); only(0, 0); } REACHED();
}
//@ x=h_page q="T=20" what="the page size and its alignment are the system's"
void h_page(void) { pgsz = 1ul << nd_pick(12, 16); zpl_isize a = 0; CHECK(zpl_virtual_memory_page_size(&a) == (zpl_isize)pgsz && a == (zpl_isize)pgsz, "as the system says"); CHECK(zpl_virtual_memory_page_size(0) == (zpl_isize)pgsz, "the alignment is optional"); REACHED(); }
//@ x=h_big q="T=40" what="trimming mappings of up to a terabyte: exactly the parts outside the window are released, whatever their size"
void h_big(void) {
    big = 1; unsigned long n = nd_u64(), l = nd_u64(), k = nd_u64(); ASSUME(n < (1ul << 28) && l < n && k >= 1 && k <= n - l); n *= PG; l *= PG; k *= PG; zpl_virtual_memory v = zpl_vm((void *)BASE, (zpl_isize)n), w = zpl_vm_trim(v, (zpl_isize)l, (zpl_isize)k); CHECK((unsigned long)w.data == BASE + l && w.size == (zpl_isize)k, "describes the window"); CHECK(!bad && maps == 0, "nothing else");
    unsigned long head = 0, tail = 0; int odd = 0; for (int i = 0; i < unmaps; i++) { if (um_a[i] == BASE && um_n[i] == l && l) head++; else if (um_a[i] == BASE + l + k && um_n[i] == n - l - k && n != l + k) tail++; else if (um_n[i]) odd++; }
    CHECK(!odd, "nothing of the window is released"); CHECK(head == (l != 0) && tail == (n != l + k), "the rest is released once"); REACHED();
}
