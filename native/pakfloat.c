/* compact_float / compact_double against an arithmetic description of header, tokens and positions */
#include "vp.h"
#include <math.h>
#include <float.h>
#include <stdint.h>
extern void *compact_float(void *, void *, void *, int, int, int, int, int, int, const void *), *compact_double(void *, void *, void *, int, int, int, int, int, int, const void *);
#ifndef VP_FPOW
double f_pow_(double *b, int32_t *i){ return ldexp(1., *i * (*b == 2.)); }
#endif
static unsigned bits(const uint32_t *p, long pos, int n){ uint64_t r = 0; for (int i = 0; i < n; i++) r = r << 1 | (p[(pos + i) >> 5] >> (31 - ((pos + i) & 31)) & 1); return (unsigned)r; }
enum { MX = 700 };
static double rnd01(void){ return (vp_r32() >> 8) / 16777216.; }
static double trunc24(double x){ int e; double m = frexp(x, &e); return ldexp(trunc(ldexp(m, 24)), e - 24); }
static char nm[300];
#define SET(T) ((T *)src)
static double TAG = 99999.0;
static int one(int dbl, int n, int nb, int eff, int style, int off, int st, int miss, int kind, int big){ TAG = dbl && (n & 1) ? 99999.1 : 99999.0;
  static const double SC[] = {1, 1e-6, 250, 1e20, 1e-30, 1e30, 3e-38, 1e-45}; double tagd = TAG; float tagf = 99999.0f; void *tag = dbl ? (void *)&tagd : (void *)&tagf; long m = (long)n * st + 8; char *src = malloc(8 * m), *keep = malloc(8 * m), *out = malloc(8 * m); double sc = SC[vp_rnd() % (dbl ? 7 : 8)], of = vp_rnd() % 3 ? (rnd01() - 0.5) * sc * (vp_rnd() % 2 ? 100 : 1) : 0; if (sc > 1e29 && fabs(of) > 1e31) of = 0;
  if (dbl && vp_rnd() % 7 == 0) { sc = 1e-3; of = 0; }
  for (long i = 0; i < m; i++) { double v; switch (kind) { case 0: v = of + sc * rnd01(); break; case 1: v = of; break; case 2: v = of + sc * (i % 17) / 16.; break; case 3: v = vp_rnd() % 8 ? 0 : sc * rnd01(); break; case 4: v = -sc * rnd01(); break; case 5: v = (i & 1 ? -1 : 1) * sc; break; default: v = dbl && i % 3 ? 1e-300 * rnd01() + (i % 5 ? 0 : rnd01()) + 1e-305 : sc * rnd01(); } if (miss && (i % 7 == 3 || kind == 9)) v = TAG; if (dbl) SET(double)[i] = v; else SET(float)[i] = (float)v; }
#define A(i) (dbl ? ((double *)src)[(long)(i) * st] : (double)((float *)src)[(long)(i) * st])
  if (dbl && kind == 7) for (long i = 0; i < m; i++) if (SET(double)[i] != TAG) SET(double)[i] += 1e-303;
  memcpy(keep, src, 8 * m); int E = eff ? eff : nb, hw = style == 1 ? 3 : 0; long words = (off + (long)n * E) / 32 + 4; uint32_t *pk = malloc(4 * (words + hw)), *pk0 = malloc(4 * (words + hw)), hdr[4]; for (long i = 0; i < words + hw; i++) pk[i] = pk0[i] = vp_r32(); uint32_t *H = style == 1 ? pk : hdr, *S = pk + hw;
  snprintf(nm, 300, "%s, %d elements, %d bits in %d, header %d, offset %d, stride %d, %s, content %d (scale %g, offset %g)", dbl ? "double" : "float", n, nb, E, style, off, st, miss ? "missing values" : "complete", kind, sc, of);
  int arg = eff ? nb + 64 * eff : nb; double mn = INFINITY, mx = -INFINITY; for (int i = 0; i < n; i++) { double a = A(i); if (miss && a == TAG) continue; if (a < mn) mn = a; if (a > mx) mx = a; }
  void *r = (dbl ? compact_double : compact_float)(src, H, S, n, arg, off, st, 1, miss, tag); VPCHECK(r == S, "result", "%s: packing fails", nm); VPCHECK(!memcmp(src, keep, 8 * m), "source", "%s: packing changes the field", nm);
  if (mn > mx) mn = mx = TAG; int e = 0; double range = mx - mn; uint32_t mt = nb == 32 ? ~0u : (1u << nb) - 1; if (range * 2 >= DBL_MIN) { frexp(range, &e); if (miss && (uint32_t)(int64_t)(range * ldexp(1, nb - e)) == mt) e++; } double step = ldexp(1, e - nb);
  VPCHECK(H[0] >> 20 == (style == 1 ? (miss ? 0x7efu : 0x7ffu) : (miss ? 0xfefu : 0xfffu)) && (H[0] & 0xFFFFF) == (n & 0xFFFFF), "count", "%s: first header word %x", nm, H[0]);
  VPCHECK((int)(H[1] >> 16) - 4096 == e - nb, "exponent", "%s: exponent of the step is %d instead of %d", nm, (int)(H[1] >> 16) - 4096, e - nb); VPCHECK((H[1] & 15) == (mn < 0), "sign", "%s: sign of the minimum", nm);
  VPCHECK(style == 1 ? H[3] >> 8 == (uint32_t)nb : H[3] == ((uint32_t)nb << 8 | n >> 20), "width", "%s: last header word %x", nm, H[3]);
  for (long q = 0; q < 32 * words; q++) if (q < off || q >= off + (long)n * E) { if (style == 1 && q < 32) continue; if (bits(S, q, 1) != bits(pk0 + hw, q, 1)) { VPCHECK(0, "foreign", "%s: bit %ld outside the tokens changed", nm, q); break; } if (q >= off && big) q += 31; }
  for (int i = 0; i < n; i++) { double a = A(i); unsigned t = bits(S, off + (long)i * E, E), w = miss && a == TAG ? mt : range * 2 < DBL_MIN ? (unsigned)(int64_t)((a - mn) * ldexp(1, nb)) : (unsigned)(int64_t)((a - mn) * ldexp(1, nb - e)); if (t != w) { VPCHECK(0, "token", "%s: token %d is %u instead of %u", nm, i, t, w); break; } }
  /* read back */
  memset(out, 0x5A, 8 * m); r = (dbl ? compact_double : compact_float)(out, H, S, n, arg, off, st, 2, miss, tag); VPCHECK(r == out, "unpack", "%s: unpacking fails", nm);
  double m0 = fabs(mn) < ldexp(1, -127) ? 0 : fabs(mn) < ldexp(1, -126) ? ldexp(trunc(ldexp(mn, 149)), -149) : trunc24(mn), lim = step * (1 + 1e-9) + fabs(mn - m0) + 1e-12 * range; int es = dbl ? 8 : 4;
  for (int i = 0; i < n; i++) { double a = A(i), g = dbl ? ((double *)out)[(long)i * st] : ((float *)out)[(long)i * st]; if (miss && a == TAG) { if (g != a) { VPCHECK(0, "missing", "%s: missing element %d reads back as %g", nm, i, g); break; } continue; } if (!(fabs(g - a) <= lim + (dbl ? 4e-16 : 1.3e-7) * fmax(fabs(mn), fabs(mx)) + (dbl ? 0 : 1.5e-45))) { VPCHECK(0, "value", "%s: element %d reads back as %.17g instead of %.17g (step %g)", nm, i, g, a, step); break; } }
  for (long i = 0; i < 8 * m; i++) if ((i / es) % st || i / es >= (long)n * st) if (out[i] != 0x5A) { VPCHECK(0, "unpack-foreign", "%s: unpacking wrote byte %ld", nm, i); break; }
  VPCHECK(!memcmp(src, keep, 8 * m), "alias", "%s: unpacking changes the source", nm); free(src); free(keep); free(out); free(pk); free(pk0); vp_evals += n; vp_distinct++; return 0; }
int main(void){ vp_init(); int T = vp_thorough ? 12 : 1;
  for (int r = 0; r < 1500 * T; r++) { int dbl = vp_rnd() & 1, nb = vp_in(1, 32), miss = vp_rnd() % 4 == 0 && nb > 1, style = vp_rnd() % 3 ? 1 : 2, eff = vp_rnd() % 3 == 0 && nb <= 16 ? 16 : 0, off = style == 1 ? 24 : eff ? 0 : (int)(vp_rnd() % 70), n = vp_rnd() % 6 == 0 ? (int)vp_in(1, 5) : (int)vp_in(6, MX); if (eff) { style = 2; off = 0; } one(dbl, n, nb, eff, style, off, vp_rnd() % 4 ? 1 : (int)vp_in(2, 4), miss && n > 4, vp_rnd() % 8, 0); }
  for (int k = 0; k < 40; k++) one(k & 1, 3 + k, 2 + k % 31, 0, k % 3 ? 1 : 2, k % 3 ? 24 : k, 1 + k % 4, 1, 9, 0);
  one(0, (1 << 20) + 77, 12, 0, 1, 24, 1, 0, 0, 1); one(0, (1 << 20) + 77, 12, 16, 2, 0, 1, 0, 0, 1);
  float z = 1, o; uint32_t h[8]; VPCHECK(!compact_float(&z, h, h + 4, 1, 0, 0, 1, 1, 0, &z) && !compact_float(&z, h, h + 4, 1, 1, 0, 1, 1, 1, &z) && !compact_float(&z, h, h + 4, 1, 8, 0, 1, 3, 0, &z), "refused", "an impossible width or operation is not refused"); (void)o;
  return vp_done(); }
