/* Native oracle helper: deterministic RNG, failure protocol. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <limits.h>
static uint64_t vp_s = 88172645463325252ULL; static long vp_evals = 0, vp_distinct = 0; static int vp_nfail = 0, vp_thorough = 0;
static inline uint64_t vp_rnd(void){ uint64_t x = vp_s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; vp_s = x; return x * 2685821657736338717ULL; }
static inline uint32_t vp_r32(void){ return (uint32_t)(vp_rnd() >> 32); }
static inline int vp_in(int lo, int hi){ return lo + (int)(vp_rnd() % (uint64_t)((int64_t)hi - lo + 1)); }
/* interesting 32-bit values */
static inline uint32_t vp_int32(void){ static const uint32_t s[] = {0,1,2,3,0xFFFFFFFFu,0x7FFFFFFFu,0x80000000u,0x80000001u,0xFFFFu,0x10000u,0xFFu,0x100u,0x7FFFu,0x8000u,0xFFFFFFFEu};
  switch (vp_rnd() % 4) { case 0: return s[vp_rnd() % (sizeof(s)/sizeof(s[0]))]; case 1: return vp_r32() >> (vp_rnd() % 32); case 2: return -(vp_r32() >> (vp_rnd() % 32)); default: return vp_r32(); } }
static void vp_init(void){ char *e = getenv("VP_SEED"); uint64_t s = e ? strtoull(e, 0, 10) : 1; vp_s ^= s * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 8; i++) vp_rnd();
  e = getenv("VP_TIER"); vp_thorough = e && !strcmp(e, "thorough"); setvbuf(stdout, 0, _IOLBF, 0); }
static void vp_fail(const char *key, const char *fmt, ...){ va_list a; va_start(a, fmt); printf("VPFAIL key=%s ", key); vprintf(fmt, a); printf("\n"); fflush(stdout); va_end(a); if (++vp_nfail >= 10) exit(0); }
static int vp_done(void){ printf("VPOK evals=%ld distinct=%ld\n", vp_evals, vp_distinct ? vp_distinct : vp_evals); return 0; }
#define VPCHECK(c, key, ...) do { vp_evals++; if (!(c)) vp_fail(key, __VA_ARGS__); } while (0)
#endif
