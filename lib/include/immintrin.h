/* stand-in used only for the symbolic encoding: the real header drags in thousands of
   vector builtins that cost 20 s of front-end time and are not used by zpl beyond these. */
#ifndef VP_X86INTRIN
#define VP_X86INTRIN
#ifdef VP_CBMC
static inline void _mm_pause(void) {}
#else
static inline void _mm_pause(void) { __builtin_ia32_pause(); }
#endif
static inline void _mm_mfence(void) { __asm__ volatile ("mfence" ::: "memory"); }
static inline void _mm_sfence(void) {}
static inline void _mm_lfence(void) { __asm__ volatile ("lfence" ::: "memory"); }
#endif
