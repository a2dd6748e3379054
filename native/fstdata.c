/* Every data type written to a standard file, read back. */
#include "vp.h"
#include <unistd.h>
#include <math.h>
#include <rmn/fstd98.h>
#include <rmn/fnom.h>
extern int c_fst_data_length(int);
#define MX 4200
typedef struct { int np0, datyp, nbits, len, n, ni, nj, nk, key, wr; unsigned seed; int kind, miss; double bound; int cmp; char why[80]; union { int i[MX]; short s[MX]; signed char b[4 * MX]; float f[MX]; double d[MX]; } x; } Fld;
static int iun; static char path[64];
static void openf(void){ iun = 0; int rc = c_fnom(&iun, path, "STD+RND", 0); if (rc < 0 || (rc = c_fstouv(iun, "RND")) < 0) { vp_fail("open", "file cannot be opened (%d)", rc); exit(vp_done()); } }
static double pat(int kind, int i, int j, int k, int n){ double a; switch (kind) { case 0: return 0.37; case 1: a = (i * 3 + j * 5 + k * 7) / 400.; return a - floor(a); case 2: return (vp_r32() >> 8) / 16777216.; case 3: return 0.5 + 0.49 * sin(i * 0.21) * cos(j * 0.17 + k); case 4: return vp_rnd() % 9 ? 0 : (vp_r32() >> 8) / 16777216.; default: return (i / 5 + j / 5) % 2 ? 0.999999 : 0.; } (void)n; }
static int pow2(int b){ return b >= 31 ? 0x7FFFFFFF : (1 << b) - 1; }
static const char *name(Fld *f){ static char b[300]; snprintf(b, 300, "type %d, %d bits, %d-byte elements, %dx%dx%d, %s, content %d", f->datyp, f->nbits, f->len, f->ni, f->nj, f->nk, f->miss ? "with missing values" : "no missing values", f->kind); return b; }
static void make(Fld *f){ int n = f->n = f->ni * f->nj * f->nk, t = f->datyp & 0x3F & ~64; double lo, hi; for (int e = 0; e < n; e++) { int i = e % f->ni, j = e / f->ni % f->nj, k = e / f->ni / f->nj; double p = pat(f->kind, i, j, k, n); uint32_t m = f->nbits >= 32 ? 0xFFFFFFFFu : (1u << f->nbits) - 1; uint32_t u = (uint32_t)(p * m + 0.5); if (u > m) u = m; if (f->miss && u == m) u = m - 1;
    switch (t) { case 2: if (f->len == 1) f->x.b[e] = u; else if (f->len == 2) f->x.s[e] = u; else f->x.i[e] = u; break;
      case 4: { int v = (int)(u - (f->nbits == 32 ? 0x80000000u : 1u << (f->nbits - 1))); if (f->miss && v > pow2(f->nbits - 1) - 1) v = pow2(f->nbits - 1) - 1; if (f->len == 1) f->x.b[e] = v; else if (f->len == 2) f->x.s[e] = v; else f->x.i[e] = v; break; }
      case 0: f->x.i[e] = vp_r32(); break; case 3: case 7: f->x.b[e] = 32 + u % 95; break;
      case 8: if (f->nbits == 64) { f->x.d[2 * e % MX] = p * 1e30 - 3; f->x.d[(2 * e + 1) % MX] = -p; } else { f->x.f[2 * e % MX] = p * 1e10 - 3; f->x.f[(2 * e + 1) % MX] = -p; } break;
      default: { static const double S[] = {1, 250, 1e-6, 1e20, 3}, O[] = {0, -100, 5e-7, -3e19, 273.15}; int q = f->seed % 5; if (f->len == 8) f->x.d[e] = p * S[q] + O[q]; else f->x.f[e] = (float)(p * S[q] + O[q]); } } }
  (void)lo; (void)hi; if (f->miss) for (int e = 0; e < n; e++) if (vp_rnd() % 11 == 0) switch (t) { case 2: if (f->len == 1) ((unsigned char *)f->x.b)[e] = 255; else if (f->len == 2) f->x.s[e] = -1; else f->x.i[e] = -1; break; case 4: if (f->len == 1) f->x.b[e] = -128; else if (f->len == 2) f->x.s[e] = -32768; else f->x.i[e] = (int)0x80000000; break; default: if (f->len == 8) f->x.d[e] = -1.0E+38; else f->x.f[e] = -1.0E+38f; } }
static int put(Fld *f, int no){ static const unsigned IP = 1; char n[5]; snprintf(n, 5, "F%03d", no % 1000); if (f->len != 4) c_fst_data_length(f->len); (void)IP; static union { int i[2 * MX + 64]; } tmp; memcpy(&tmp, &f->x, sizeof f->x); int rc = c_fstecr(&tmp, 0, f->np0 ? f->np0 - 1 : -f->nbits, iun, 0, 0, 0, f->ni, f->nj, f->nk, no, 1, 2, "P ", n, "DATA        ", "X", 0, 0, 0, 0, f->datyp, 0); VPCHECK(rc == 0, "write", "%s: write returns %d", name(f), rc); VPCHECK(!memcmp(&tmp, &f->x, sizeof f->x), "source", "%s: writing changed the field of the caller", name(f)); return rc; }
static char out[8 * MX + 512];
static int get(Fld *f, int no){ char n[5]; snprintf(n, 5, "F%03d", no % 1000); int ni, nj, nk; int h = c_fstinf(iun, &ni, &nj, &nk, -1, "DATA        ", no, -1, -1, "  ", n); VPCHECK(h > 0, "find", "%s: record %d not found", name(f), no); if (h <= 0) return -1; memset(out, 0x5A, sizeof out); if (f->len != 4 && !(f->len == 8 && (f->datyp & 15) == 5 && (vp_rnd() & 1))) c_fst_data_length(f->len); int rc = c_fstluk(out, h, &ni, &nj, &nk); c_fst_data_length(4); VPCHECK(rc == h, "read", "%s: read returns %d", name(f), rc); return rc == h ? 0 : -1; }
static void exact(Fld *f, int size, int n){ for (int e = 0; e < n; e++) if (memcmp(out + (size_t)e * size, (char *)&f->x + (size_t)e * size, size)) { unsigned g = 0, w = 0; memcpy(&g, out + e * size, size < 4 ? size : 4); memcpy(&w, (char *)&f->x + e * size, size < 4 ? size : 4); VPCHECK(0, "value", "%s: element %d reads back as %x instead of %x", name(f), e, g, w); return; } vp_evals++; }
static void approx(Fld *f, double tol){ double mn = 1e300, mx = -1e300; int n = f->n; for (int e = 0; e < n; e++) { double v = f->len == 8 ? f->x.d[e] : f->x.f[e]; if (f->miss && v < -9e37) continue; if (v < mn) mn = v; if (v > mx) mx = v; } for (int e = 0; e < n; e++) { double v = f->len == 8 ? f->x.d[e] : f->x.f[e], g = f->len == 8 ? ((double *)out)[e] : ((float *)out)[e]; if (f->miss && v < -9e37) { VPCHECK(g == v, "missing", "%s: missing element %d reads back as %g", name(f), e, g); if (g != v) return; continue; } double lim = tol * (mx - mn) + 6e-7 * fmax(fabs(mn), fabs(mx)) * (f->miss ? 2 : 1); VPCHECK(fabs(g - v) <= lim, "value", "%s: element %d reads back as %.9g instead of %.9g (tolerance %g)", name(f), e, g, v, lim); if (fabs(g - v) > lim) return; } }
static int np0; extern int c_fstopl(char *, int, int);
/* a record copied without decoding, as editfst does, holds the same field */
static void image(Fld *f, int no, int *cnt){ static char im[16 * MX + 4096], keep[sizeof out]; memcpy(keep, out, sizeof out); char n[5]; snprintf(n, 5, "F%03d", no % 1000); int i, j, k, h = c_fstinf(iun, &i, &j, &k, -1, "DATA        ", no, -1, -1, "  ", n); VPCHECK(h > 0, "find", "%s: record %d not found", name(f), no); if (h <= 0) return; int D[30], nb, dt; char a[5] = "", b[9] = "", c[16] = "", d[3] = ""; c_fstprm(h, D, D + 1, D + 2, &i, &j, &k, &nb, &dt, D + 3, D + 4, D + 5, a, b, c, d, D + 6, D + 7, D + 8, D + 9, D + 10, D + 11, D + 12, D + 13, D + 14, D + 15, D + 16);
  c_fstopl("IMAGE", 1, 0); int r = c_fstluk(im, h, &i, &j, &k), no2 = ++*cnt; snprintf(n, 5, "F%03d", no2 % 1000); int w = c_fstecr(im, 0, -nb, iun, 0, 0, 0, i, j, k, no2, 1, 2, "P ", n, "DATA        ", "X", 0, 0, 0, 0, dt, 0); c_fstopl("IMAGE", 0, 0); VPCHECK(r == h && w == 0, "image", "%s: copying the record returns %d and %d", name(f), r, w); if (get(f, no2)) return; if (memcmp(out, keep, sizeof out)) { size_t q = 0; while (out[q] == keep[q]) q++; VPCHECK(0, "image", "%s: the copy of the record differs from it at byte %zu", name(f), q); } vp_evals++; }
static void one(int type, int nbits, int len, int ni, int nj, int nk, int kind, int miss, int *no){ static Fld f, g; memset(&f, 0, sizeof f); f.datyp = type | (miss ? 64 : 0); f.nbits = nbits; f.len = len; f.ni = ni; f.nj = nj; f.nk = nk; f.kind = kind; f.miss = miss; f.seed = vp_r32(); f.np0 = np0; f.n = ni * nj * nk; make(&f); int no1 = ++*no; if (put(&f, no1)) return; int b = type & 63, no2 = 0; if (type >= 128 && (b == 1 || b == 6 )) { g = f; g.datyp = b | (miss ? 64 : 0); no2 = ++*no; put(&g, no2); }
  if (vp_rnd() % 3 == 0) { c_fstfrm(iun); c_fclos(iun); openf(); } if (get(&f, no1)) return; if (vp_rnd() % 3 == 0 && type >= 0) { image(&f, no1, no); if (get(&f, no1)) return; } if (f.np0) { exact(&f, 4, f.n); vp_distinct++; return; } int base = 0; static char keep[sizeof out];
  switch (b) { case 0: exact(&f, 4, (f.n * nbits + 31) / 32); break; case 2: case 4: exact(&f, len, f.n); base = len * f.n; break; case 3: exact(&f, 1, f.n); base = 4 * ((f.n + 3) / 4); break; case 7: exact(&f, 1, f.n); base = f.n; break; case 8: exact(&f, nbits == 64 ? 8 : 4, 2 * f.n); break; case 5: if (nbits == 32 || nbits == 64) exact(&f, nbits / 8, f.n); else approx(&f, pow(2, -(nbits - 9)) * 60); break; case 1: approx(&f, 2.05 * pow(2, -nbits)); break; case 6: approx(&f, (miss ? 2.2 : 2.1) * pow(2, -nbits)); break; }
  if (base) for (int e = 0; e < 16; e++) VPCHECK(out[base + e] == 0x5A, "overrun", "%s: reading wrote past the field", name(&f));
  if (no2) { memcpy(keep, out, sizeof out); if (get(&g, no2)) return; for (int e = 0; e < f.n; e++) if (memcmp(out + e * len, keep + e * len, len)) { VPCHECK(0, "compressed", "%s: element %d of the compressed record differs from the uncompressed one (%g, %g)", name(&f), e, len == 8 ? ((double *)keep)[e] : ((float *)keep)[e], len == 8 ? ((double *)out)[e] : ((float *)out)[e]); return; } vp_evals++; }
  vp_distinct++; }
/* a sequential file over 128 MB: records are aligned on clusters */
static void bigseq(void){ int u = 0, N = 1 << 19, rc; char p[64]; snprintf(p, 64, "q%d.fst", getpid()); unlink(p); rc = c_fnom(&u, p, "STD+SEQ", 0); if (rc >= 0) rc = c_fstouv(u, "SEQ"); if (rc < 0) { vp_fail("open", "sequential file cannot be opened (%d)", rc); return; } int *a = calloc(N, 4); float f[640]; for (int i = 0; i < 640; i++) f[i] = (vp_r32() >> 8) / 16777216.; int nr = vp_thorough ? 268 : 70; for (int k = 0; k < nr && !rc; k++) rc = c_fstecr(a, 0, -32, u, 0, 0, 0, 1024, N / 1024, 1, k, 0, 0, "P ", "RAW ", "DATA        ", "X", 0, 0, 0, 0, 0, 0); VPCHECK(rc == 0, "write", "large sequential file: write returns %d", rc);
  static const int T[] = {6, 134, 1, 129, 2, 0}; for (int k = 0; k < 60; k++) { int t = T[k % 6], ni = 16 + k / 6, nj = 16 + k % 5; rc = c_fstecr(f, 0, t ? -12 : -32, u, 0, 0, 0, ni, nj, 1, k, 0, 0, "P ", "FLT ", "DATA        ", "X", 0, 0, 0, 0, t == 2 ? 0 : t, 0); VPCHECK(rc == 0, "write", "large sequential file: write of type %d returns %d", t, rc); }
  c_fstfrm(u); c_fclos(u); u = 0; c_fnom(&u, p, "STD+SEQ", 0); c_fstouv(u, "SEQ"); int i, j, l; static float g[4000]; for (int k = 0; k < 60; k++) { int t = T[k % 6], n = (16 + k / 6) * (16 + k % 5), h = c_fstinf(u, &i, &j, &l, -1, "DATA        ", k, -1, -1, "P ", "FLT "); VPCHECK(h > 0, "find", "large sequential file: record %d not found", k); if (h <= 0) break; rc = c_fstluk(g, h, &i, &j, &l); VPCHECK(rc == h, "read", "large sequential file: reading type %d returns %d", t, rc); for (int e = 0; e < n; e++) if (t && t != 2 ? fabs(g[e] - f[e]) > 0.001 : memcmp(g + e, f + e, t == 2 ? 0 : 4)) { VPCHECK(0, "value", "large sequential file: element %d of type %d reads back as %g instead of %g", e, t, g[e], f[e]); break; } }
  c_fstfrm(u); c_fclos(u); unlink(p); free(a); vp_evals++; }
int main(int argc, char **argv){ vp_init(); { extern int ForceMissingValueUsage(int); ForceMissingValueUsage(1); } if (!getenv("VP_ERR")) freopen("/dev/null", "w", stderr); snprintf(path, 64, "d%d.fst", getpid()); unlink(path); openf(); int no = 0, T = vp_thorough ? 10 : 1;
  static const int DM[][3] = {{1, 1, 1}, {7, 1, 1}, {5, 4, 3}, {16, 16, 1}, {17, 19, 1}, {33, 40, 1}, {50, 61, 1}, {20, 20, 3}, {15, 40, 1}, {2, 2, 1}, {64, 3, 2}};
  for (int r = 0; r < 330 * T; r++) { int t = vp_rnd() % 28, di = vp_rnd() % 11, ni = DM[di][0], nj = DM[di][1], nk = DM[di][2], kind = vp_rnd() % 6; if (vp_rnd() % 4 == 0) { ni = vp_in(1, 60); nj = vp_in(1, 60); nk = 1; } int b16 = vp_in(2, 16), b32 = vp_in(2, 32);
    switch (t) { case 0: one(0, vp_rnd() & 1 ? 32 : b32, 4, ni, nj, nk, kind, 0, &no); break; case 1: one(2, b32, 4, ni, nj, nk, kind, 0, &no); break; case 2: one(2, b16, 2, ni, nj, nk, kind, 0, &no); break; case 3: one(2, vp_in(2, 8), 1, ni, nj, nk, kind, 0, &no); break;
      case 4: one(4, b32, 4, ni, nj, nk, kind, 0, &no); break; case 5: one(4, b16, 2, ni, nj, nk, kind, 0, &no); break; case 6: one(4, vp_in(2, 8), 1, ni, nj, nk, kind, 0, &no); break;
      case 7: one(130, b16, 4, ni, nj, nk, kind, 0, &no); break; case 8: one(130, b16, 2, ni, nj, nk, kind, 0, &no); break; case 9: one(130, vp_in(2, 8), 1, ni, nj, nk, kind, 0, &no); break; case 10: one(130, vp_in(17, 32), 4, ni, nj, nk, kind, 0, &no); break;
      case 11: one(1, vp_in(4, 24), 4, ni, nj, nk, kind, 0, &no); break; case 12: one(129, vp_in(4, 16), 4, ni, nj, nk, kind, 0, &no); break; case 13: one(6, vp_in(4, 16), 4, ni, nj, nk, kind, 0, &no); break; case 14: one(134, vp_in(4, 16), 4, ni, nj, nk, kind, 0, &no); break;
      case 15: one(5, 32, 4, ni, nj, nk, kind, 0, &no); break; case 16: one(5, 64, 8, ni, nj, nk, kind, 0, &no); break; case 17: one(133, 32, 4, ni, nj, nk, kind, 0, &no); break; case 18: one(3, vp_in(1, 8), 4, ni, nj, nk, kind, 0, &no); break; case 19: one(7, vp_in(5, 12), 4, ni, nj, nk, kind, 0, &no); break; case 20: one(8, 32, 4, ni < 30 ? ni : 30, nj < 30 ? nj : 30, 1, kind, 0, &no); break;
      case 21: one(8, 64, 8, ni < 30 ? ni : 30, nj < 30 ? nj : 30, 1, kind, 0, &no); break; case 22: { static const int MT[][3] = {{2, 4, 32}, {2, 2, 16}, {2, 1, 8}, {4, 4, 32}, {4, 2, 16}, {4, 1, 8}, {130, 4, 16}, {130, 2, 16}, {130, 1, 8}}; int m = vp_rnd() % 9, lim = MT[m][2]; one(MT[m][0], vp_in(3, lim), MT[m][1], ni, nj, nk, kind, 1, &no); break; }
      case 23: { static const int MT[] = {1, 5, 6, 129, 134, 133}; int m = MT[vp_rnd() % 6], l8 = (m & 7) != 6 && m != 133 && vp_rnd() % 3 == 0; one(m, m == 5 && l8 ? 64 : m == 5 || m == 133 ? 32 : vp_in(4, 16), l8 ? 8 : 4, ni, nj, nk, kind, 1, &no); break; } case 24: one(1, vp_in(4, 24), 8, ni, nj, nk, kind, 0, &no); break; case 25: one(129, vp_in(4, 16), 8, ni, nj, nk, kind, 0, &no); break; case 27: one(vp_rnd() & 1 ? 2 : 130, vp_in(9, 16), 1, ni, nj, nk, kind, 0, &no); break; case 26: { static const int MT[] = {1, 5, 6, 129, 134, 133, 2, 4, 130}; np0 = 1 + (vp_rnd() & 1); one(MT[vp_rnd() % 9], 32, 4, ni, nj, nk, kind, 1, &no); np0 = 0; break; } }
    }
  /* noise of full width does not compress: the writer falls back on the plain form */
  for (int r = 0; r < 24 * T; r++) { static const int FT[] = {129, 134, 130, 133, 130, 130}; int q = r % 6, t = FT[q], l = q == 4 ? 2 : q == 5 ? 1 : 4; one(t, t == 133 ? 32 : l == 1 ? 8 : 16, l, vp_in(16, 40), vp_in(16, 40), 1, 2, r & 8, &no); }
  for (int r = 0; r < 12 * T; r++) one(5, 64, 8, vp_in(1, 40), vp_in(1, 40), 1, vp_in(0, 5), 1, &no);
  bigseq();
  c_fstfrm(iun); c_fclos(iun); unlink(path); return vp_done(); }
