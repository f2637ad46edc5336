/* plain C definitions of the libc functions zpl calls (vpx interprets these; memcpy/memmove/memset/malloc family are engine built-ins) */
#ifndef VPX_LIBC_H
#define VPX_LIBC_H
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
size_t strnlen(const char *s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const char *p = h; for (; hl >= nl; hl--, p++) if (!memcmp(p, n, nl)) return (void *)p; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *x = d; const unsigned char *y = s; for (; n; n--) if ((*x++ = *y++) == (unsigned char)c) return x; return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); }
char *strndup(const char *s, size_t n) { size_t k = strnlen(s, n); char *r = malloc(k + 1); memcpy(r, s, k); r[k] = 0; return r; }
#undef isupper
#undef islower
#undef isxdigit
#undef isprint
#undef isgraph
#undef ispunct
#undef iscntrl
#undef isblank
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c <= 126; }
int isgraph(int c) { return c >= 33 && c <= 126; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
/* what <ctype.h> expands its tests to */
static unsigned short vpx_ctab_[384]; static const unsigned short *vpx_ctp_; static int vpx_lo_[384], vpx_up_[384]; static const int *vpx_lop_, *vpx_upp_;
const unsigned short **__ctype_b_loc(void) {
    if (!vpx_ctp_) { for (int c = 0; c < 128; c++) vpx_ctab_[128 + c] = (unsigned short)((isupper(c) ? 256 : 0) | (islower(c) ? 512 : 0) | (isalpha(c) ? 1024 : 0) | (isdigit(c) ? 2048 : 0) | (isxdigit(c) ? 4096 : 0) | (isspace(c) ? 8192 : 0) | (isprint(c) ? 16384 : 0) | (isgraph(c) ? 32768 : 0) | (isblank(c) ? 1 : 0) | (iscntrl(c) ? 2 : 0) | (ispunct(c) ? 4 : 0) | (isalnum(c) ? 8 : 0)); vpx_ctp_ = vpx_ctab_ + 128; }
    return &vpx_ctp_; }
const int **__ctype_tolower_loc(void) { if (!vpx_lop_) { for (int c = -128; c < 256; c++) vpx_lo_[128 + c] = tolower(c); vpx_lop_ = vpx_lo_ + 128; } return &vpx_lop_; }
const int **__ctype_toupper_loc(void) { if (!vpx_upp_) { for (int c = -128; c < 256; c++) vpx_up_[128 + c] = toupper(c); vpx_upp_ = vpx_up_ + 128; } return &vpx_upp_; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
static unsigned long long vpx_strtou(const char *s, char **e, int base, int *neg, int *ovf) {
    const char *p = s; while (isspace((unsigned char)*p)) p++; *neg = *p == '-'; if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) p += 2, base = 16; else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; int any = 0; *ovf = 0;
    for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= base) break; if (v > (~0ull - d) / base) *ovf = 1; v = v * base + d; any = 1; }
    if (e) *e = (char *)(any ? p : s); return v; }
unsigned long long strtoull(const char *s, char **e, int base) { int n, o; unsigned long long v = vpx_strtou(s, e, base, &n, &o); if (o) { errno = ERANGE; return ~0ull; } return n ? -v : v; }
unsigned long strtoul(const char *s, char **e, int base) { return strtoull(s, e, base); }
long long strtoll(const char *s, char **e, int base) { int n, o; unsigned long long v = vpx_strtou(s, e, base, &n, &o); if (o || v > (1ull << 63) - !n) { errno = ERANGE; return n ? -0x7fffffffffffffffll - 1 : 0x7fffffffffffffffll; } return n ? (long long)(0 - v) : (long long)v; }
long strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c((char *)b + (j - 1) * w, (char *)b + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = ((char *)b)[(j - 1) * w + k]; ((char *)b)[(j - 1) * w + k] = ((char *)b)[j * w + k]; ((char *)b)[j * w + k] = t; } }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { size_t l = 0; while (l < n) { size_t m = (l + n) / 2; int r = c(k, (char *)b + m * w); if (!r) return (char *)b + m * w; if (r < 0) n = m; else l = m + 1; } return 0; }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
float fmaxf(float a, float b) { return a != a ? b : b != b ? a : a > b ? a : b; }
float fminf(float a, float b) { return a != a ? b : b != b ? a : a < b ? a : b; }
#endif
