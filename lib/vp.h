/* Harness support: one source, two back ends.
 *  VP_CBMC   : inputs are symbolic, ASSUME/CHECK go to the solver.
 *  otherwise : native replay; inputs are read from the file named in argv[1]
 *              (one unsigned decimal per line, in the order the harness asks for them).
 */
#ifndef VP_H
#define VP_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>

#ifdef VP_CBMC
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#ifdef VP_REACH
#define VP_ZASSERT(c, m) ((void)0)
#else
#define VP_ZASSERT(c, m) __CPROVER_assert(c, m)
#endif
/* zpl's own assertions are part of the behaviour: one that can fire under legal use is a violation */
#define ZPL_ASSERT_MSG(cond, msg, ...) do { int vp_c_ = !!(cond); VP_ZASSERT(vp_c_, "ZPL_ASSERT " #cond); __CPROVER_assume(vp_c_); } while (0)
#define ASSUME(c) __CPROVER_assume(c)
#define VP_SYM 1
#ifdef VP_REACH
#define CHECK(c, msg) do { if (0) { int vp_u_ = !!(c); (void)vp_u_; } } while (0)
#else
#define CHECK(c, msg) __CPROVER_assert((c), "VP " msg)
#endif
#elif defined(VP_X)
/* path-forking executor (vpx) */
#define VP_SYM 1
void __vpx_assume(int c); void __vpx_check(int c, char const *msg); void __vpx_reached(void); void __vpx_print(char const *m, ...);
unsigned char __vpx_nd8(void); unsigned short __vpx_nd16(void); unsigned int __vpx_nd32(void); unsigned long long __vpx_nd64(void);
int __vpx_spawn(void *fn, void *arg); void __vpx_yield(int voluntary); void __vpx_block(void); int __vpx_tid(void); int __vpx_done(int t);
void __vpx_shared(void *p, unsigned long long n); unsigned long long __vpx_concrete(unsigned long long v); int __vpx_live(void);
#define ASSUME(c) __vpx_assume(!!(c))
#define CHECK(c, msg) __vpx_check(!!(c), "VP " msg)
#define ZPL_ASSERT_MSG(cond, msg, ...) do { int vp_c_ = !!(cond); __vpx_check(vp_c_, "ZPL_ASSERT " #cond); __vpx_assume(vp_c_); } while (0)
#include "vpx_libc.h"
#else
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "VP-ASSUME-FALSE %s:%d\n", __FILE__, __LINE__); fflush(0); _Exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { fprintf(stderr, "VP-CHECK-FAILED %s:%d: %s\n", __FILE__, __LINE__, msg); fflush(0); _Exit(99); } } while (0)
#endif

#if defined(VP_CBMC) && defined(VP_BYTEMEM)
/* byte-loop models of the C library copies (cheaper than CBMC's symbolic-size array copies) */
void *memcpy(void *d, const void *s, size_t n) {
    if (n) __CPROVER_assert(!(__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && (size_t)__CPROVER_POINTER_OFFSET(d) < (size_t)__CPROVER_POINTER_OFFSET(s) + n && (size_t)__CPROVER_POINTER_OFFSET(s) < (size_t)__CPROVER_POINTER_OFFSET(d) + n), "memcpy regions do not overlap");
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *memset(void *d, int c, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = (char)c; return d; }
void *memmove(void *d, const void *s, size_t n) {
    if ((uintptr_t)d < (uintptr_t)s) for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    else for (size_t i = n; i > 0; i--) ((char *)d)[i - 1] = ((const char *)s)[i - 1];
    return d;
}
#endif

#ifdef VP_PRE
#include VP_PRE
#endif
#define ZPL_IMPL
#include VP_ZPL

#ifdef VP_CBMC
unsigned char  nondet_uchar(void);
unsigned short nondet_ushort(void);
unsigned int   nondet_uint(void);
unsigned long long nondet_ulonglong(void);
static unsigned char nd_u8(void)  { unsigned char v = nondet_uchar(); __CPROVER_input("nd", v); return v; }
static unsigned short nd_u16(void) { unsigned short v = nondet_ushort(); __CPROVER_input("nd", v); return v; }
static unsigned int nd_u32(void)  { unsigned int v = nondet_uint(); __CPROVER_input("nd", v); return v; }
static unsigned long long nd_u64(void) { unsigned long long v = nondet_ulonglong(); __CPROVER_input("nd", v); return v; }
#ifdef VP_REACH
#define REACHED() __CPROVER_assert(0, "VPREACH")
#else
#define REACHED() ((void)0)
#endif
#elif defined(VP_X)
#define nd_u8 __vpx_nd8
#define nd_u16 __vpx_nd16
#define nd_u32 __vpx_nd32
#define nd_u64 __vpx_nd64
#define REACHED() __vpx_reached()
#else
static FILE *vp_in;
static unsigned long long vp_next(void) { unsigned long long v = 0; if (!vp_in || fscanf(vp_in, "%llu", &v) != 1) v = 0; return v; }
static unsigned char nd_u8(void) { return (unsigned char)vp_next(); }
static unsigned short nd_u16(void) { return (unsigned short)vp_next(); }
static unsigned int nd_u32(void) { return (unsigned int)vp_next(); }
static unsigned long long nd_u64(void) { return vp_next(); }
#define REACHED() do { fprintf(stderr, "VP-REACHED\n"); } while (0)
#endif
static inline int nd_i32(void) { return (int)nd_u32(); }
static inline long long nd_i64(void) { return (long long)nd_u64(); }
static inline _Bool nd_bool(void) { return nd_u8() & 1; }
static inline char nd_char(void) { return (char)nd_u8(); }
/* value in [lo,hi], few bits */
static inline int nd_in(int lo, int hi) { int v = (int)nd_u8(); ASSUME(v >= 0 && v <= hi - lo); return lo + v; }
/* like nd_in, but the executor forks on the value at once: structural choices (operation, position, size) */
static inline int nd_pick(int lo, int hi) {
#ifdef VP_X
    return lo + (int)__vpx_concrete((unsigned)(nd_in(lo, hi) - lo));
#else
    return nd_in(lo, hi);
#endif
}
static inline float nd_f32(void) { union { unsigned u; float f; } c; c.u = nd_u32(); return c.f; }
static inline double nd_f64(void) { union { unsigned long long u; double f; } c; c.u = nd_u64(); return c.f; }
static inline void nd_bytes(void *p, int n) { for (int i = 0; i < n; i++) ((unsigned char *)p)[i] = nd_u8(); }
/* NUL-terminated string of at most n chars in buf[n+1]; symbolic length */
static inline void nd_str(char *buf, int n) { for (int i = 0; i < n; i++) buf[i] = nd_char(); buf[n] = 0; }

/* a block of no bytes has one addressable byte under ASan; it has none here */
#if !defined(VP_CBMC) && !defined(VP_X) && !defined(malloc)
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
static inline void *vp_malloc(size_t n) { void *p = malloc(n); if (!n && p && __asan_poison_memory_region) __asan_poison_memory_region(p, 1); return p; }
#define malloc vp_malloc
#endif
/* exactly-sized heap copies: a string of 0..max (or exactly n) non-NUL symbolic characters, and raw bytes */
static inline char *vp_strn(int n) { char *p = (char *)malloc((size_t)n + 1); for (int i = 0; i < n; i++) { p[i] = nd_char(); ASSUME(p[i] != 0); } p[n] = 0; return p; }
static inline char *vp_str(int max) { return vp_strn(nd_pick(0, max)); }
static inline unsigned char *vp_bytes(int n) { unsigned char *p = (unsigned char *)malloc((size_t)n); nd_bytes(p, n); return p; }
/* reference string functions (independent of libc and zpl) */
static inline int rlen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static inline int rsgn(int v) { return (v > 0) - (v < 0); }
static inline int rcmp(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }

/* ---- tracked allocator: every block is a separate object of exactly the requested size, so
 * a single byte out of bounds is visible; contents start poisoned; optional bounded failure. */
static int vp_live, vp_allocs; static int vp_fail_at = -1;
static void *vp_alloc_proc(void *data, zpl_alloc_type type, zpl_isize size, zpl_isize alignment, void *old, zpl_isize old_size, zpl_u64 flags) {
    (void)data; (void)alignment;
    switch (type) {
    case ZPL_ALLOCATION_ALLOC: {
        if (vp_fail_at >= 0 && vp_allocs++ >= vp_fail_at) return 0;
        void *p = malloc((size_t)size);
#ifndef VP_NOPOISON
        if (size > 0) memset(p, (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) ? 0 : 0xCD, (size_t)size);
#endif
        vp_live++;
        return p;
    }
    case ZPL_ALLOCATION_FREE: if (old) vp_live--; free(old); return 0;
    case ZPL_ALLOCATION_FREE_ALL: return 0;
    case ZPL_ALLOCATION_RESIZE: {
        if (vp_fail_at >= 0 && vp_allocs++ >= vp_fail_at) return 0;
        void *p = malloc((size_t)size);
        if (old) { memcpy(p, old, (size_t)(old_size < size ? old_size : size)); free(old); } else vp_live++;
        return p;
    }
    }
    return 0;
}
static inline zpl_allocator vp_heap(void) { zpl_allocator a; a.proc = vp_alloc_proc; a.data = 0; return a; }

/* live heap blocks (executor) or bytes (native ASan build): for code that allocates with the C heap; compare two marks */
#ifdef VP_X
#define vp_heapmark() __vpx_live()
#elif defined(VP_CBMC)
#define vp_heapmark() 0
#else
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static inline int vp_heapmark(void) { return __sanitizer_get_current_allocated_bytes ? (int)__sanitizer_get_current_allocated_bytes() : 0; }
#endif

/* ---- ghost-probe models (use with repl="zpl_memset:vp_memset_model,..."): memory is tracked at one
 * solver-chosen address; every range is still checked to be inside live memory. Sound for properties
 * that read contents only at the probe; the replaced functions are themselves proved by P01. */
#ifdef VP_CBMC
static unsigned char *vp_probe;
void *vp_memset_model(void *p, zpl_u8 c, zpl_isize n) {
    if (!p) return 0;
    if (n > 0) { CHECK(__CPROVER_w_ok(p, n), "set range inside live memory"); unsigned char *q = p;
#ifdef VP_MEMSET_T
        if (n == sizeof(VP_MEMSET_T) && c == 0 && !__CPROVER_same_object(p, vp_probe)) { *(VP_MEMSET_T *)p = (VP_MEMSET_T){0}; return p; }
        CHECK(__CPROVER_same_object(p, vp_probe), "model");
#else
        if (!__CPROVER_same_object(p, vp_probe)) { for (zpl_isize i = 0; i < n; i++) q[i] = c; return p; }
#endif
        if (vp_probe >= q && vp_probe < q + n) *vp_probe = c; }
    return p;
}
void *vp_memmove_model(void *d, void const *s, zpl_isize n) {
    if (!d) return 0;
    if (n > 0) {
        CHECK(__CPROVER_w_ok(d, n), "move destination inside live memory"); CHECK(__CPROVER_r_ok(s, n), "move source inside live memory");
        unsigned char *q = d; unsigned char const *r = s;
        if (!__CPROVER_same_object(d, vp_probe)) { if (q <= r || !__CPROVER_same_object(d, s)) for (zpl_isize i = 0; i < n; i++) q[i] = r[i]; else for (zpl_isize i = n; i > 0; i--) q[i - 1] = r[i - 1]; return d; }
        if (vp_probe >= q && vp_probe < q + n) *vp_probe = r[vp_probe - q];
    }
    return d;
}
#else
static unsigned char *vp_probe;
#endif

#if !defined(VP_CBMC) && !defined(VP_X)
#ifdef VP_ENTRY
void VP_ENTRY(void);
int main(int argc, char **argv) {
    static char vp_buf[1 << 16];
    vp_in = argc > 1 ? fopen(argv[1], "r") : 0;
    if (vp_in) setvbuf(vp_in, vp_buf, _IOFBF, sizeof vp_buf);
    VP_ENTRY();
    fprintf(stderr, "VP-DONE\n");
    return 0;
}
#endif
#endif
#endif
