// P19: checksums and hashes against bitwise / arithmetic definitions
#include "vp.h"
typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64;
/* definitions, written independently of the implementation */
static u32 d_crc32(u8 const *p, int n) { u32 c = 0xFFFFFFFFu; for (int i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } return c ^ 0xFFFFFFFFu; }
static u64 d_crc64(u8 const *p, int n) { u64 c = 0; for (int i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x95AC9329AC4BC9B5ull & (0ull - (c & 1))); } return c; }
static u32 d_adler(u8 const *p, int n) { u32 a = 1, b = 0; for (int i = 0; i < n; i++) { a += p[i]; b += a; if (i % 4096 == 4095) a %= 65521, b %= 65521; } return b % 65521 << 16 | a % 65521; }
static u32 rotl(u32 x, int r) { return x << r | x >> (32 - r); }
static u32 d_m32(u8 const *p, int n, u32 h) {
    int i = 0; for (; i + 4 <= n; i += 4) { u32 k = p[i] | (u32)p[i + 1] << 8 | (u32)p[i + 2] << 16 | (u32)p[i + 3] << 24; k *= 0xcc9e2d51u; k = rotl(k, 15); k *= 0x1b873593u; h ^= k; h = rotl(h, 13) * 5 + 0xe6546b64u; }
    u32 t = 0; for (int j = n - 1; j >= i; j--) t = t << 8 | p[j];
    if (n > i) { t *= 0xcc9e2d51u; t = rotl(t, 15); t *= 0x1b873593u; h ^= t; }
    h ^= (u32)n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h;
}
static u64 d_m64v(u8 const *p, int n, u64 seed, int from) {
    u64 const m = 0xc6a4a7935bd1e995ull; u64 h = seed ^ ((u64)n * m); int i = 0;
    for (; i + 8 <= n; i += 8) { u64 k = 0; for (int j = 7; j >= 0; j--) k = k << 8 | p[i + j]; k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; }
    if (n > i) { u64 t = 0; for (int j = n - 1; j >= i; j--) t = t << 8 | p[from < 0 ? j : j - i + from]; h ^= t; h *= m; }
    h ^= h >> 47; h *= m; h ^= h >> 47; return h;
}
static u64 d_m64(u8 const *p, int n, u64 seed) { return d_m64v(p, n, seed, -1); }
static u8 *blk; static u8 *bytes_at(int n) { int off = nd_pick(0, 1); blk = (u8 *)malloc(n + off); nd_bytes(blk + off, n); return blk + off; } /* exact size, aligned or not */
//@ x=h_fnv q="N=10,T=40" t="N=24,T=200" what="FNV-1 and FNV-1a, 32 and 64 bit, of every byte string up to N, aligned or not"
#ifndef N
#define N 10
#endif
void h_fnv(void) {
    int n = nd_pick(0, N); u8 *p = bytes_at(n); u32 a = 0x811c9dc5u, b = a; u64 c = 0xcbf29ce484222325ull, d = c;
    for (int i = 0; i < n; i++) { a *= 16777619u; a ^= p[i]; b ^= p[i]; b *= 16777619u; c *= 1099511628211ull; c ^= p[i]; d ^= p[i]; d *= 1099511628211ull; }
    CHECK(zpl_fnv32(p, n) == a, "FNV-1 32"); CHECK(zpl_fnv32a(p, n) == b, "FNV-1a 32"); CHECK(zpl_fnv64(p, n) == c, "FNV-1 64"); CHECK(zpl_fnv64a(p, n) == d, "FNV-1a 64"); free(blk); REACHED();
}
//@ x=h_murmur q="NM=19,T=60" t="NM=40,T=300" what="Murmur 32 and 64 of every byte string up to NM and every seed, aligned or not; default seed"
#ifndef NM
#define NM 19
#endif
void h_murmur(void) {
    int n = nd_pick(0, NM); u8 *p = bytes_at(n); u32 s = nd_u32(); u64 t = nd_u64();
    CHECK(zpl_murmur32_seed(p, n, s) == d_m32(p, n, s), "Murmur3 32"); u64 g = zpl_murmur64_seed(p, n, t); if (n < 8 || n % 8 == 0) CHECK(g == d_m64(p, n, t), "Murmur2 64A"); else CHECK(g == d_m64(p, n, t) || g == d_m64v(p, n, t, 0), "Murmur2 64A up to the recorded finding (tail taken from the front)");
    CHECK(zpl_murmur32(p, n) == d_m32(p, n, 0x9747b28cu), "default seed 32"); CHECK(zpl_murmur64(p, n) == zpl_murmur64_seed(p, n, 0x9747b28cu), "default seed 64"); free(blk); REACHED();
}
//@ x=h_murmur64_tail known=murmur64_tail q="T=40" what="Murmur 64 of strings longer than 8 bytes with a partial last block equals its published definition"
void h_murmur64_tail(void) { int n = nd_pick(9, 15); u8 *p = bytes_at(n); u64 t = nd_u64(); CHECK(zpl_murmur64_seed(p, n, t) == d_m64(p, n, t), "Murmur2 64A"); free(blk); REACHED(); }
//@ x=h_crc1 q="T=40" what="CRC-32 and CRC-64 of every one-byte string and the empty string"
void h_crc1(void) { int n = nd_pick(0, 1); u8 *p = bytes_at(n); CHECK(zpl_crc32(p, n) == d_crc32(p, n), "CRC-32"); CHECK(zpl_crc64(p, n) == d_crc64(p, n), "CRC-64"); free(blk); REACHED(); }
//@ x=h_crc q="NC=5,W=0,T=60" t="NC=40,W=0,T=200;NC=2,W=1,T=600" what="CRC-32 and CRC-64 of strings up to NC: every value of any one byte inside fixed surroundings (W=1: all bytes arbitrary)"
#ifndef NC
#define NC 24
#endif
#ifndef W
#define W 0
#endif
void h_crc(void) {
    int n = nd_pick(1, NC), at = nd_pick(0, n - 1); u8 *p = bytes_at(n); for (int i = 0; i < n; i++) if (!W && i != at) p[i] = (u8)(i * 73 + 251);
    CHECK(zpl_crc32(p, n) == d_crc32(p, n), "CRC-32"); CHECK(zpl_crc64(p, n) == d_crc64(p, n), "CRC-64"); free(blk); REACHED();
}
//@ x=h_adler q="NA=9,T=60" t="NA=17,T=300" what="Adler-32 of every byte string up to NA"
#ifndef NA
#define NA 9
#endif
void h_adler(void) { int n = nd_pick(0, NA); u8 *p = bytes_at(n); CHECK(zpl_adler32(p, n) == d_adler(p, n), "Adler-32"); free(blk); REACHED(); }
//@ x=h_adler_long q="T=60" t="T=200" what="Adler-32 around its block length (5549..5560, 11104, 11110 bytes of 0xFF, 0x00 or 0x80) with any one of the last bytes arbitrary: no overflow of the deferred reduction"
void h_adler_long(void) {
    int k = nd_pick(0, 13), n = k < 12 ? 5549 + k : k == 12 ? 11104 : 11110, w = nd_pick(0, 4), f = nd_pick(0, 2); u8 *p = (u8 *)malloc(n); memset(p, f == 0 ? 0xFF : f == 1 ? 0 : 0x80, n);
    int at = w == 0 ? n - 1 : w == 1 ? n - 8 : w == 2 ? n - 9 : w == 3 ? n - 17 : n - 40; p[at] = nd_u8(); CHECK(zpl_adler32(p, n) == d_adler(p, n), "Adler-32 of a long string"); free(p); REACHED();
}
//@ x=h_long q="T=60,STEPS=30000000" t="T=200,STEPS=60000000" what="every function of strings of 255 to 70000 bytes with any one of the last bytes arbitrary"
void h_long(void) {
    static int const LN[6] = { 255, 256, 257, 4096, 65536, 70001 }; int n = LN[nd_pick(0, 5)], w = nd_pick(0, 2), off = nd_pick(0, 1); u8 *q = (u8 *)malloc(n + off), *p = q + off; for (int i = 0; i < n; i++) p[i] = (u8)(i * 73 + (i >> 8) * 5 + 251); p[w == 0 ? n - 1 : w == 1 ? n - 2 : n - 9] = nd_u8(); int f = nd_pick(0, 4);
    if (f == 0) { u32 a = 0x811c9dc5u, b = a; u64 c = 0xcbf29ce484222325ull, d = c; for (int i = 0; i < n; i++) { a *= 16777619u; a ^= p[i]; b ^= p[i]; b *= 16777619u; c *= 1099511628211ull; c ^= p[i]; d ^= p[i]; d *= 1099511628211ull; } CHECK(zpl_fnv32(p, n) == a, "FNV-1 32"); CHECK(zpl_fnv32a(p, n) == b, "FNV-1a 32"); CHECK(zpl_fnv64(p, n) == c, "FNV-1 64"); CHECK(zpl_fnv64a(p, n) == d, "FNV-1a 64"); }
    else if (f == 1) CHECK(zpl_murmur32_seed(p, n, 77) == d_m32(p, n, 77), "Murmur3 32");
    else if (f == 2) { u64 g = zpl_murmur64_seed(p, n, 77); CHECK(g == d_m64(p, n, 77) || (n % 8 && g == d_m64v(p, n, 77, 0)), "Murmur2 64A up to the recorded finding"); }
    else if (f == 3) { if (n < 5000) { CHECK(zpl_crc32(p, n) == d_crc32(p, n), "CRC-32"); CHECK(zpl_crc64(p, n) == d_crc64(p, n), "CRC-64"); } else { p[n - 1] = p[n - 2] = p[n - 9] = 1; CHECK(zpl_crc32(p, n) == d_crc32(p, n), "CRC-32"); CHECK(zpl_crc64(p, n) == d_crc64(p, n), "CRC-64"); } }
    else CHECK(zpl_adler32(p, n) == d_adler(p, n), "Adler-32"); free(q); REACHED();
}
