/* Histories of standard-file operations against a model: list of records in directory order. Files live in the current (scratch) directory. */
#include "vp.h"
#include <unistd.h>
#include <sys/stat.h>
#include <rmn/fstd98.h>
#include <rmn/fnom.h>
extern void newdate_(int *, int *, int *, int *); extern void incdatr_(int *, int *, double *);
typedef struct { int date, datev, deet, npas, ni, nj, nk, nbits, datyp, ip1, ip2, ip3, ig[4], kind, seed, nw, dead, key; char t[3], n[5], e[13], g[2]; } Rec;
typedef struct { Rec *r; int n, cap, iun, open, ro, created, rw, eff, big; char path[64]; } File;
#define MAXW 4096
static int fld[MAXW], out[MAXW + 64]; static char hist[4096];
static void H(const char *f, ...){ char b[256]; va_list a; va_start(a, f); vsnprintf(b, 256, f, a); va_end(a); size_t l = strlen(hist), m = strlen(b); if (l + m > 1400) { memmove(hist, hist + l / 2, l - l / 2 + 1); l = strlen(hist); } memcpy(hist + l, b, m + 1); }
static uint32_t mix(uint32_t x){ x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; return x ^ (x >> 16); }
/* element k of the data of record r */
static uint32_t el(const Rec *r, int k){ uint32_t v = mix(r->seed * 2654435761u + k); int b = r->nbits;
  switch (r->kind) { case 0: return v; case 2: return b == 32 ? v : v & ((1u << b) - 1); case 4: return (uint32_t)((int32_t)(v << (32 - b)) >> (32 - b)); case 5: return (v & 0x007fffffu) | ((100 + (v >> 24) % 60) << 23) | (v & 0x80000000u); default: return v; } }
static int fill(const Rec *r){ int n = r->ni * r->nj * r->nk; if (r->kind == 7) { for (int k = 0; k < n; k++) ((unsigned char *)fld)[k] = mix(r->seed + k) & 0xff; return (n + 3) / 4; } for (int k = 0; k < n; k++) fld[k] = el(r, k); return n; }
static int datawords(const Rec *r){ int n = r->ni * r->nj * r->nk; return (n * r->nbits + 120 + 63) / 64; }
static void rstr(char *s, int n, int some){ static const char al[] = "ABZ09 _+:"; for (int i = 0; i < n; i++) s[i] = some ? al[vp_rnd() % 9] : " "[0]; s[n] = 0; }
static int DV[40], ND;
static void mkdates(void){ int mode = 3; for (int i = 0; i < 12; i++) { int y = vp_in(1985, 2090) * 10000 + vp_in(1, 12) * 100 + vp_in(1, 28), h = vp_in(0, 23) * 1000000 + vp_in(0, 59) * 10000 + (i % 3 ? 0 : 1500); int st, m = -3; (void)mode; m = 3; newdate_(&st, &y, &h, &m); DV[ND++] = st; } }
static void rrec(Rec *r, int big){ memset(r, 0, sizeof *r); static const char *N[] = {"TT  ", "GZ  ", "UU  ", "P0  ", "ABCD", "A B ", "T   "}; static const char *T[] = {"P ", "A ", "P@", " Z"}; static const char *E[] = {"R1_V500_N   ", "R1_V500_M   ", "GEM         ", "0123456789AB", "0123456789AC", "A          Z"};
  strcpy(r->n, N[vp_rnd() % 7]); strcpy(r->t, T[vp_rnd() % 4]); strcpy(r->e, E[vp_rnd() % 6]); if (vp_rnd() % 6 == 0) { rstr(r->n, 4, 1); if (!strcmp(r->n, "    ")) r->n[1] = 'Q'; } if (vp_rnd() % 9 == 0) { rstr(r->e, 12, 1); if (!strncmp(r->e, "          ", 10)) r->e[3] = 'Q'; }
  r->g[0] = "XZLN!"[vp_rnd() % 5]; static const int D[] = {0, 0, 5, 60, 300, 3600, 0xFFFFFF}; static const int NP[] = {0, 1, 2, 12, 48, 288, 0xFFFFFF}; r->deet = D[vp_rnd() % 7]; r->npas = NP[vp_rnd() % 7]; if ((double)r->deet * r->npas > 3e7) r->npas = vp_rnd() % 2;
  r->date = DV[vp_rnd() % ND]; r->datev = r->date; if (r->deet * (double)r->npas > 0) { double h = (double)r->deet * r->npas / 3600.; int a = r->date; incdatr_(&a, &a, &h); r->datev = a; }
  static const int IP[] = {0, 1, 500, 12000, 0xFFFFFFF, 0x8000000, 93423264, 0x7FFFFFF}; for (int i = 0; i < 3; i++) { int v = vp_rnd() % 5 ? IP[vp_rnd() % 8] : (int)(vp_r32() & 0xFFFFFFF); if (i == 0) r->ip1 = v; else if (i == 1) r->ip2 = v; else r->ip3 = v; }
  for (int i = 0; i < 4; i++) r->ig[i] = vp_rnd() % 4 ? (int)(vp_r32() & 0xFFFFFF) : (vp_rnd() & 1 ? 0xFFFFFF : 0);
  static const int K[] = {0, 2, 4, 5, 7}; r->kind = K[vp_rnd() % 5]; r->datyp = r->kind; r->nbits = r->kind == 2 || r->kind == 4 ? vp_in(r->kind == 4 ? 2 : 1, 32) : r->kind == 7 ? 8 : 32;
  r->ni = vp_in(1, big ? 60 : 9); r->nj = vp_in(1, 5); r->nk = vp_in(1, 3); r->seed = vp_r32(); r->nw = datawords(r); }
static const char *ev(const char *s, int wild, char *b){ if (wild) { strcpy(b, " "); return b; } strcpy(b, s); return b; }
/* selection */
typedef struct { int date, i1, i2, i3; char n[5], t[3], e[13]; } Sel;
static int cc(int d){ unsigned u = d; return (8 * (u / 10) + u % 10) & ~7u; }
static int matches(const Rec *r, const Sel *s){ if (r->dead) return 0; if (s->date != -1 && cc(r->datev) != cc(s->date)) return 0; if (s->i1 != -1 && s->i1 != r->ip1) return 0; if (s->i2 != -1 && s->i2 != r->ip2) return 0; if (s->i3 != -1 && s->i3 != r->ip3) return 0;
  if (strcmp(s->n, "    ") && strcmp(s->n, r->n)) return 0; if (strcmp(s->t, "  ") && strcmp(s->t, r->t)) return 0; if (strncmp(s->e, "          ", 10) && strcmp(s->e, r->e)) return 0; return 1; }
static void rsel(Sel *s, File *f){ Rec z; if (f->n && vp_rnd() % 8) z = f->r[vp_rnd() % f->n]; else rrec(&z, 0); int w = vp_rnd(), d = vp_rnd() % 3; if (d == 0) w = -1; if (d == 1) w |= vp_rnd();
  s->date = w & 1 ? -1 : z.datev; s->i1 = w & 2 ? -1 : z.ip1; s->i2 = w & 4 ? -1 : z.ip2; s->i3 = w & 8 ? -1 : z.ip3; strcpy(s->n, w & 16 ? "    " : z.n); strcpy(s->t, w & 32 ? "  " : z.t); strcpy(s->e, w & 64 ? "            " : z.e); }
static int handle_of(File *f, int k){ return f->r[k].key; }
static int same(const char *a, const char *b){ return !strcmp(a, b); }
static void checkprm(File *f, int h, const Rec *r, const char *when){ char t[3] = "  ", n[5] = "    ", e[13] = "            ", g[2] = " "; int d, de, np, ni, nj, nk, nb, dt, i1, i2, i3, g1, g2, g3, g4, swa, lng, dlt, ubc, x1, x2, x3;
  int rc = c_fstprm(h, &d, &de, &np, &ni, &nj, &nk, &nb, &dt, &i1, &i2, &i3, t, n, e, g, &g1, &g2, &g3, &g4, &swa, &lng, &dlt, &ubc, &x1, &x2, &x3);
  VPCHECK(rc >= 0, "descriptor", "%s: descriptors of handle %d not available (%d); %s", when, h, rc, hist); if (rc < 0) return;
  VPCHECK(ni == r->ni && nj == r->nj && nk == r->nk && nb == r->nbits && dt == r->datyp, "descriptor", "%s: dims %d %d %d bits %d type %d instead of %d %d %d %d %d; %s", when, ni, nj, nk, nb, dt, r->ni, r->nj, r->nk, r->nbits, r->datyp, hist);
  VPCHECK(i1 == r->ip1 && i2 == r->ip2 && i3 == r->ip3, "descriptor", "%s: ips %d %d %d instead of %d %d %d; %s", when, i1, i2, i3, r->ip1, r->ip2, r->ip3, hist);
  VPCHECK(g1 == r->ig[0] && g2 == r->ig[1] && g3 == r->ig[2] && g4 == r->ig[3] && g[0] == r->g[0], "descriptor", "%s: igs %d %d %d %d %c instead of %d %d %d %d %c; %s", when, g1, g2, g3, g4, g[0], r->ig[0], r->ig[1], r->ig[2], r->ig[3], r->g[0], hist);
  VPCHECK(de == r->deet && np == r->npas && x1 == r->datev, "descriptor", "%s: deet %d npas %d valid %d instead of %d %d %d; %s", when, de, np, x1, r->deet, r->npas, r->datev, hist);
  VPCHECK(same(t, r->t) && same(n, r->n) && same(e, r->e), "descriptor", "%s: [%s][%s][%s] instead of [%s][%s][%s]; %s", when, t, n, e, r->t, r->n, r->e, hist); }
static void checkdata(int h, const Rec *r, const char *when){ int n = r->ni * r->nj * r->nk, nw = r->kind == 7 ? (n + 3) / 4 : n, ni, nj, nk; for (int k = 0; k < nw + 8; k++) out[k] = 0x5A5A5A5A;
  int rc = c_fstluk(out, h, &ni, &nj, &nk); VPCHECK(rc == h, "data", "%s: reading handle %d returns %d; %s", when, h, rc, hist); if (rc < 0) return; fill(r);
  int bad = -1; if (r->kind == 7) { for (int k = 0; k < n; k++) if (((unsigned char *)out)[k] != ((unsigned char *)fld)[k]) { bad = k; break; } } else for (int k = 0; k < n; k++) if (out[k] != fld[k]) { bad = k; break; }
  VPCHECK(bad < 0, "data", "%s: type %d bits %d dims %d %d %d: element %d is %d instead of %d; %s", when, r->datyp, r->nbits, r->ni, r->nj, r->nk, bad, bad < 0 ? 0 : out[bad], bad < 0 ? 0 : fld[bad], hist);
  VPCHECK(out[nw + 1] == 0x5A5A5A5A && out[nw + 7] == 0x5A5A5A5A, "data-overrun", "%s: reading wrote past the field; %s", when, hist);
  VPCHECK(ni == r->ni && nj == r->nj && nk == r->nk, "data", "%s: dims of the field read; %s", when, hist); }
static int IUN = 20;
static void openf(File *f, int ro){ int iun = 0, rc; f->iun = 0; rc = c_fnom(&f->iun, f->path, ro ? "STD+RND+R/O+OLD" : "STD+RND", 0); if (rc < 0) { vp_fail("open", "fnom %d", rc); exit(0); } iun = f->iun; (void)iun; rc = c_fstouv(f->iun, "RND");
  int want = f->n; VPCHECK(rc == (f->created ? want : rc) && rc >= 0, "open", "opening returns %d records instead of %d; %s", rc, want, hist); if (rc < 0) exit(vp_done()); f->open = 1; f->ro = ro; f->created = 1; H(" open%s", ro ? "(ro)" : ""); }
static void closef(File *f){ int rc = c_fstfrm(f->iun); VPCHECK(rc >= 0, "close", "close returns %d; %s", rc, hist); c_fclos(f->iun); f->open = 0; H(" close"); }
/* handles of the live records, through a search that selects everything */
static void resync(File *f){ int ni, nj, nk, k = -1, h = c_fstinf(f->iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", " "); for (;;) { do k++; while (k < f->n && f->r[k].dead); if (h < 0) break; if (k >= f->n) { vp_fail("search", "more records than written; %s", hist); return; }
    VPCHECK(h >= 0 && ni == f->r[k].ni && nj == f->r[k].nj && nk == f->r[k].nk, "search", "record %d of the full listing has dims %d %d %d instead of %d %d %d; %s", k, ni, nj, nk, f->r[k].ni, f->r[k].nj, f->r[k].nk, hist); f->r[k].key = h; h = c_fstsui(f->iun, &ni, &nj, &nk); }
  VPCHECK(k >= f->n, "search", "the listing stops at record %d of %d; %s", k, f->n, hist); }
static int append(File *f, const Rec *r0, int rewrite){ Rec r = *r0; int tgt = -1; fill(&r); Sel s = { -1, r.ip1, r.ip2, r.ip3 }; strcpy(s.n, r.n); strcpy(s.t, r.t); strcpy(s.e, r.e); if (rewrite) for (int k = 0; k < f->n; k++) if (matches(&f->r[k], &s)) { tgt = k; break; }
  int rc = c_fstecr(fld, 0, -r.nbits, f->iun, r.date, r.deet, r.npas, r.ni, r.nj, r.nk, r.ip1, r.ip2, r.ip3, r.t, r.n, r.e, r.g, r.ig[0], r.ig[1], r.ig[2], r.ig[3], r.datyp, rewrite);
  if (f->ro) { VPCHECK(rc < 0, "readonly", "writing to a file open read-only returns %d; %s", rc, hist); return 0; }
  VPCHECK(rc == 0, "write", "write returns %d; %s", rc, hist); if (rc) return 0;
  if (f->n == f->cap) { f->cap = f->cap ? 2 * f->cap : 64; f->r = realloc(f->r, f->cap * sizeof(Rec)); }
  if (tgt >= 0) { f->rw++; f->eff++; } if (tgt < 0 || f->r[tgt].nw != r.nw) { if (r.nw > f->big) f->big = r.nw; }
  if (tgt >= 0 && f->r[tgt].nw == r.nw) { r.key = f->r[tgt].key; f->r[tgt] = r; H(" rewrite#%d", tgt); } else { if (tgt >= 0) { f->r[tgt].dead = 1; H(" move#%d", tgt); } r.key = -1; f->r[f->n++] = r; H(" write#%d", f->n - 1); } return 1; }
static void search(File *f){ Sel s; rsel(&s, f); int ni, nj, nk; char b1[20], b2[20], b3[20]; ev(s.n, 0, b1); ev(s.t, 0, b2); ev(s.e, 0, b3); int *exp = malloc(4 * (f->n + 1)), m = 0; for (int k = 0; k < f->n; k++) if (matches(&f->r[k], &s)) exp[m++] = k; int style = vp_rnd() % 4; H(" find[%s/%s/%s %d %d %d %d]s%d", s.n, s.t, s.e, s.date, s.i1, s.i2, s.i3, style);
  if (style == 0) { int *l = malloc(4 * (f->n + 4)), nf = -1, rc = c_fstinl(f->iun, &ni, &nj, &nk, s.date, b3, s.i1, s.i2, s.i3, b2, b1, l, &nf, f->n + 1); int mm = m; if (m > 1 && vp_rnd() % 2) { int lim = vp_in(1, m), q; for (int i = 0; i < f->n + 1; i++) l[i] = -77; q = c_fstinl(f->iun, &ni, &nj, &nk, s.date, b3, s.i1, s.i2, s.i3, b2, b1, l, &nf, lim); VPCHECK(nf == lim && q == (m > lim ? -m : 0) && l[lim] == -77, "short-list", "a list of %d for %d matches returns %d with %d records; %s", lim, m, q, nf, hist); nf = lim; mm = lim; rc = 0; } VPCHECK(nf == mm && rc == 0, "search", "list search finds %d records instead of %d (%d); %s", nf, mm, rc, hist); for (int i = 0; i < mm && i < nf; i++) VPCHECK(l[i] == handle_of(f, exp[i]), "search", "list search: match %d is handle %d instead of %d; %s", i, l[i], handle_of(f, exp[i]), hist); free(l); }
  else { int h = c_fstinf(f->iun, &ni, &nj, &nk, s.date, b3, s.i1, s.i2, s.i3, b2, b1); int i = 0; int lim = style == 3 ? 3 : 1 << 30; for (; i < lim; i++) { if (i >= m) { VPCHECK(h < 0, "search", "match %d (handle %d) does not match the selection or was given before; %s", i, h, hist); break; }
      VPCHECK(h == handle_of(f, exp[i]), "search", "match %d is handle %d instead of %d (record %d); %s", i, h, handle_of(f, exp[i]), exp[i], hist); if (h != handle_of(f, exp[i])) break; VPCHECK(ni == f->r[exp[i]].ni && nj == f->r[exp[i]].nj && nk == f->r[exp[i]].nk, "search", "dims of match %d; %s", i, hist);
      if (vp_rnd() % 4 == 0) checkprm(f, h, &f->r[exp[i]], "match"); if (vp_rnd() % 6 == 0) checkdata(h, &f->r[exp[i]], "match");
      h = style == 2 ? c_fstinfx(h, f->iun, &ni, &nj, &nk, s.date, b3, s.i1, s.i2, s.i3, b2, b1) : c_fstsui(f->iun, &ni, &nj, &nk); } }
  if (vp_rnd() % 3 == 0) { int h = -2; if (f->n) { int k = vp_rnd() % f->n, a = 0; while (f->r[k].dead && a++ < 50) k = vp_rnd() % f->n; if (!f->r[k].dead) { int from = handle_of(f, k), e = -1; for (int i = 0; i < m; i++) if (exp[i] > k) { e = exp[i]; break; } h = c_fstinfx(from, f->iun, &ni, &nj, &nk, s.date, b3, s.i1, s.i2, s.i3, b2, b1);
      if (e < 0) VPCHECK(h < 0, "search-from", "search from record %d finds handle %d, no match follows; %s", k, h, hist); else VPCHECK(h == handle_of(f, e), "search-from", "search from record %d finds handle %d instead of %d; %s", k, h, handle_of(f, e), hist); } } }
  free(exp); }
/* statistics of the file: records, erasures, extensions, rewrites, directory pages, size, biggest record */
extern int c_xdfsta();
static void stats(File *f){ uint32_t st[12]; char v[8], a[8]; memset(st, 0xEE, sizeof st); int rc = c_xdfsta(f->iun, st, 12, 0, 0, 0, 0, v, a), nv = 0, pg = f->n ? (f->n + 255) / 256 : 1; for (int k = 0; k < f->n; k++) nv += !f->r[k].dead; VPCHECK(rc == 0, "stats", "statistics return %d; %s", rc, hist); H(" stats");
  VPCHECK((int)st[11] == nv && (int)st[10] == f->eff && (int)st[2] == f->n && (int)st[1] == f->rw, "stats", "the file says %d records, %d erasures, %d extensions, %d rewrites instead of %d %d %d %d; %s", st[11], st[10], st[2], st[1], nv, f->eff, f->n, f->rw, hist); VPCHECK((int)st[3] == pg, "stats", "%d directory pages instead of %d; %s", st[3], pg, hist); VPCHECK((int)st[5] == (f->n ? f->big + 10 : (int)st[5]), "stats", "the biggest record has %d units instead of %d; %s", st[5], f->big + 10, hist); }
static int live(File *f){ for (int a = 0; a < 60 && f->n; a++) { int k = vp_rnd() % f->n; if (!f->r[k].dead) return k; } return -1; }
static void lifetime(int nops, int big, int target){ static int no = 0; File F = { 0 }; File *f = &F; snprintf(f->path, 64, "h%d_%d.fst", getpid(), no++); hist[0] = 0; unlink(f->path); openf(f, 0);
  for (int op = 0; op < nops; op++) { int w = vp_rnd() % 100; Rec r;
    if (f->n < target ? w < 45 : w < 6) { rrec(&r, big); if (vp_rnd() % 5 == 0 && f->n) { Rec z = f->r[vp_rnd() % f->n]; if (!z.dead) { strcpy(r.n, z.n); strcpy(r.t, z.t); strcpy(r.e, z.e); r.ip1 = z.ip1; r.ip2 = z.ip2; r.ip3 = z.ip3; if (vp_rnd() & 1) { r.ni = z.ni; r.nj = z.nj; r.nk = z.nk; r.kind = z.kind; r.datyp = z.datyp; r.nbits = z.nbits; r.nw = z.nw; } append(f, &r, 1); resync(f); continue; } }
      int first = !f->ro && vp_rnd() % 4 == 0, ni, nj, nk, last = -1, lh = -1; Sel s; if (first) { rsel(&s, f); lh = c_fstinf(f->iun, &ni, &nj, &nk, s.date, s.e, s.i1, s.i2, s.i3, s.t, s.n); while (lh >= 0 && vp_rnd() % 8) { lh = c_fstsui(f->iun, &ni, &nj, &nk); } }
      if (append(f, &r, 0) && first) { /* continuing a search after a write: whatever it answers must be a genuine match */ int h = c_fstsui(f->iun, &ni, &nj, &nk); resync(f); if (h >= 0) { last = -1; for (int k = 0; k < f->n; k++) if (!f->r[k].dead && f->r[k].key == h) last = k; VPCHECK(last >= 0 && matches(&f->r[last], &s), "search-after-write", "continuing a search after a write gives handle %d, which is not a match; %s", h, hist); if (last >= 0) VPCHECK(ni == f->r[last].ni, "search-after-write", "dims after write; %s", hist); } } else if (!f->ro) resync(f); }
    else if (w < 62) search(f);
    else if (w < 72) { int k = live(f); if (k >= 0) { checkdata(f->r[k].key, &f->r[k], "read"); checkprm(f, f->r[k].key, &f->r[k], "read"); } }
    else if (w < 78) { int k = live(f); if (k >= 0) { int h = f->r[k].key, rc = c_fsteff(h); H(" erase#%d", k); if (f->ro) VPCHECK(rc < 0, "readonly", "erasing in a read-only file returns %d; %s", rc, hist); else { VPCHECK(rc == 0, "erase", "erase returns %d; %s", rc, hist); f->r[k].dead = 1; f->eff++; int a, b, c; VPCHECK(c_fsteff(h) < 0, "erase", "erasing twice is accepted; %s", hist); VPCHECK(c_fstluk(out, h, &a, &b, &c) < 0, "erase", "an erased record can still be read; %s", hist); } } }
    else if (w < 79) { int k = live(f); if (k >= 0 && f->ro) { VPCHECK(c_fst_edit_dir(f->r[k].key, -1, -1, -1, -1, -1, -1, 77, -1, -1, "  ", "    ", "            ", " ", -1, -1, -1, -1, -1) < 0, "readonly", "editing a record of a read-only file is accepted; %s", hist); checkprm(f, f->r[k].key, &f->r[k], "refused edit"); } }
    else if (w < 83) { int k = live(f); if (k >= 0 && !f->ro) { Rec *q = &f->r[k], z; rrec(&z, 0); int m = vp_rnd(); char b1[8], b2[8], b3[16]; int i1 = m & 1 ? z.ip1 : -1, i2 = m & 2 ? z.ip2 : -1, i3 = m & 4 ? z.ip3 : -1, g[4]; for (int i = 0; i < 4; i++) g[i] = m & (8 << i) ? z.ig[i] : -1; strcpy(b1, m & 128 ? z.t : "  "); strcpy(b2, m & 256 ? z.n : "    "); strcpy(b3, m & 512 ? z.e : "            ");
        if (!strcmp(b1, "  ")) m &= ~128; if (!strcmp(b2, "    ")) m &= ~256; int rc = c_fst_edit_dir(q->key, -1, -1, -1, -1, -1, -1, i1, i2, i3, b1, b2, b3, " ", g[0], g[1], g[2], g[3], -1); H(" edit#%d", k); VPCHECK(rc == 0, "edit", "edit returns %d; %s", rc, hist);
        if (m & 1) q->ip1 = z.ip1; if (m & 2) q->ip2 = z.ip2; if (m & 4) q->ip3 = z.ip3; for (int i = 0; i < 4; i++) if (m & (8 << i)) q->ig[i] = z.ig[i]; if (m & 128) strcpy(q->t, z.t); if (m & 256) strcpy(q->n, z.n); if (m & 512) strcpy(q->e, z.e); checkprm(f, q->key, q, "edit"); } }
    else if (w < 87) { int nv = 0; for (int k = 0; k < f->n; k++) nv += !f->r[k].dead; int rc = c_fstnbrv(f->iun); VPCHECK(rc == nv, "count", "%d valid records instead of %d; %s", rc, nv, hist); }
    else if (w < 90) { /* handles that designate nothing */ int used = f->n % 256, pg = (f->n - 1) / 256, a, b, c, idx = 0; int k = live(f); if (k >= 0) { idx = f->r[k].key & 0x3FF; int h; if (vp_rnd() & 1) { pg = f->n ? (f->n - 1) / 256 : 0; int rec = f->n ? (f->n - 1) % 256 + 1 : 0; (void)used; h = idx | rec << 10 | pg << 19; } else h = idx | (vp_rnd() % 256) << 10 | ((f->n ? (f->n - 1) / 256 : 0) + 1) << 19;
        VPCHECK(c_fstluk(out, h, &a, &b, &c) < 0, "bad-handle", "a handle of no record (page %d record %d) is accepted for reading; %s", h >> 19, (h >> 10) & 511, hist); char t[3] = "  ", n[5] = "    ", e[13] = "            ", g[2] = " "; int z[22]; int rc = c_fstprm(h, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8, z + 9, z + 10, t, n, e, g, z + 11, z + 12, z + 13, z + 14, z + 15, z + 16, z + 17, z + 18, z + 19, z + 20, z + 21); VPCHECK(rc < 0, "bad-handle", "descriptors of a handle of no record (page %d record %d); %s", h >> 19, (h >> 10) & 511, hist);
        if (!f->ro) { VPCHECK(c_fsteff(h) < 0, "bad-handle", "a handle of no record (page %d record %d) is accepted for erasing; %s", h >> 19, (h >> 10) & 511, hist); VPCHECK(c_fst_edit_dir(h, -1, -1, -1, -1, -1, -1, 5, -1, -1, "  ", "    ", "            ", " ", -1, -1, -1, -1, -1) < 0, "bad-handle", "a handle of no record (page %d record %d) is accepted for editing; %s", h >> 19, (h >> 10) & 511, hist); } } }
    else if (w < 94) { int wasro = f->ro; closef(f); if (!wasro) VPCHECK(c_fstcheck(f->path) == 0, "check", "the closed file is reported damaged; %s", hist); openf(f, vp_rnd() % 4 == 0); resync(f); }
    else if (w >= 97) stats(f);
    else if (w < 96 && !f->ro) { c_fstckp(f->iun); H(" checkpoint"); } }
  /* handles of distinct records differ and are positive */ for (int i = 0; i < f->n; i++) if (!f->r[i].dead) { VPCHECK(f->r[i].key > 0 && ((f->r[i].key >> 19) & 0xFFF) == i / 256 && ((f->r[i].key >> 10) & 0x1FF) == i % 256, "handle", "handle of record %d is %d; %s", i, f->r[i].key, hist); }
  closef(f); openf(f, 1); resync(f); for (int k = 0; k < f->n; k++) if (!f->r[k].dead) { checkprm(f, f->r[k].key, &f->r[k], "final"); checkdata(f->r[k].key, &f->r[k], "final"); } closef(f); unlink(f->path); free(f->r); vp_distinct++; }
extern int c_fstlnk(int *, int); extern int c_xdflnk(int *, int);
/* linked files: searched as one, in order; handles of any of them work through the first */
static void linked(int nf, int per){ static int no = 0; File F[6]; memset(F, 0, sizeof F); int l[6]; hist[0] = 0; H(" linked %d", nf); for (int i = 0; i < nf; i++) { snprintf(F[i].path, 64, "l%d_%d.fst", getpid(), no++); unlink(F[i].path); openf(&F[i], 0); int n = vp_in(1, per); for (int k = 0; k < n; k++) { Rec r; rrec(&r, 0); append(&F[i], &r, 0); } for (int k = 0; k < n; k++) if (vp_rnd() % 10 == 0) { resync(&F[i]); c_fsteff(F[i].r[k].key); F[i].r[k].dead = 1; } closef(&F[i]); }
  File A = { 0 }; for (int i = 0; i < nf; i++) { openf(&F[i], 1); l[i] = F[i].iun; } VPCHECK(c_xdflnk(l, nf) == 0, "link", "link refused"); A = F[0]; A.n = 0; A.r = 0; int tot = 0; for (int i = 0; i < nf; i++) tot += F[i].n; A.r = malloc(tot * sizeof(Rec)); for (int i = 0; i < nf; i++) { memcpy(A.r + A.n, F[i].r, F[i].n * sizeof(Rec)); A.n += F[i].n; } A.ro = 1; H(" counts"); for (int i = 0; i < nf; i++) H(" %d", F[i].n); resync(&A);
  for (int k = 0; k < A.n; k++) if (!A.r[k].dead && vp_rnd() % 3 == 0) { checkprm(&A, A.r[k].key, &A.r[k], "linked"); checkdata(A.r[k].key, &A.r[k], "linked"); } for (int i = 0; i < 60; i++) search(&A); for (int i = 0; i < nf; i++) { c_fstfrm(l[i]); c_fclos(l[i]); unlink(F[i].path); free(F[i].r); } free(A.r); vp_distinct++; }
/* linked files open for writing: an erasure through a handle of the first file takes effect in the file that owns the record; a rewrite never touches a record of another file */
static void linkedrw(int nf, int per){ static int no = 0; File F[6]; memset(F, 0, sizeof F); int l[6], first[7]; hist[0] = 0; H(" linked rw %d", nf); for (int i = 0; i < nf; i++) { snprintf(F[i].path, 64, "w%d_%d.fst", getpid(), no++); unlink(F[i].path); openf(&F[i], 0); int n = vp_in(1, per); for (int k = 0; k < n; k++) { Rec r; rrec(&r, 0); r.ip3 = 1000 * i + k; append(&F[i], &r, 0); } closef(&F[i]); }
  for (int i = 0; i < nf; i++) { openf(&F[i], 0); l[i] = F[i].iun; } VPCHECK(c_xdflnk(l, nf) == 0, "link", "link refused"); File A = F[0]; A.n = 0; int tot = 0; for (int i = 0; i < nf; i++) { first[i] = tot; tot += F[i].n; } first[nf] = tot; A.r = malloc((tot + 9) * sizeof(Rec)); A.cap = tot + 9; for (int i = 0; i < nf; i++) { memcpy(A.r + A.n, F[i].r, F[i].n * sizeof(Rec)); A.n += F[i].n; } resync(&A);
  for (int e = 0; e < 12; e++) { int k = live(&A), o = 0; if (k < 0) break; while (first[o + 1] <= k) o++; Rec *q = &F[o].r[k - first[o]];
    if (vp_rnd() % 2) { int rc = c_fsteff(A.r[k].key); H(" erase %d.%d", o, k - first[o]); VPCHECK(rc == 0, "linked-erase", "erasing record %d of linked file %d returns %d; %s", k - first[o], o, rc, hist); if (rc == 0) A.r[k].dead = q->dead = 1; }
    else if (o > 0) { Rec r = *q; r.seed++; fill(&r); int rc = c_fstecr(fld, 0, -r.nbits, A.iun, r.date, r.deet, r.npas, r.ni, r.nj, r.nk, r.ip1, r.ip2, r.ip3, r.t, r.n, r.e, r.g, r.ig[0], r.ig[1], r.ig[2], r.ig[3], r.datyp, 1); H(" rewrite %d.%d", o, k - first[o]); VPCHECK(rc < 0, "linked-rewrite", "rewriting record %d of linked file %d through the first file returns %d; %s", k - first[o], o, rc, hist); } resync(&A); }
  for (int i = 0; i < 10; i++) search(&A); for (int i = 0; i < nf; i++) { c_fstfrm(l[i]); c_fclos(l[i]); F[i].open = 0; }
  for (int i = 0; i < nf; i++) { int nv = 0; openf(&F[i], 1); H(" file %d", i); for (int k = 0; k < F[i].n; k++) nv += !F[i].r[k].dead; VPCHECK(c_fstnbrv(F[i].iun) == nv, "linked-count", "file %d has %d valid records instead of %d; %s", i, c_fstnbrv(F[i].iun), nv, hist); resync(&F[i]); for (int k = 0; k < F[i].n; k++) if (!F[i].r[k].dead) { checkprm(&F[i], F[i].r[k].key, &F[i].r[k], "after link"); checkdata(F[i].r[k].key, &F[i].r[k], "after link"); } closef(&F[i]); unlink(F[i].path); free(F[i].r); } free(A.r); vp_distinct++; }
/* a search that reached the end, then a write that opens a new directory page */
static void endwrite(int pages){ static int no = 0; File F = { 0 }; File *f = &F; snprintf(f->path, 64, "e%d_%d.fst", getpid(), no++); hist[0] = 0; unlink(f->path); openf(f, 0); Rec r; for (int k = 0; k < 256 * pages; k++) { rrec(&r, 0); strcpy(r.n, "AAAA"); r.ni = r.nj = r.nk = 1; append(f, &r, 0); }
  int ni, nj, nk, h = c_fstinf(f->iun, &ni, &nj, &nk, -1, " ", -1, -1, -1, " ", "BBBB"); VPCHECK(h < 0, "search", "a name never written is found; %s", hist); rrec(&r, 0); strcpy(r.n, "BBBB"); append(f, &r, 0); h = c_fstsui(f->iun, &ni, &nj, &nk); if (h >= 0) { char t[3], n[5], e[13]; resync(f); VPCHECK(h == f->r[256 * pages].key, "search-after-write", "a search continued after a write that opens directory page %d gives handle %d (page %d record %d)", pages, h, h >> 19, (h >> 10) & 511); (void)t; (void)n; (void)e; }
  closef(f); unlink(f->path); free(f->r); vp_distinct++; }
/* search over the equivalent encodings (new and old style) of levels: any combination of the three */
extern int c_ip1_all(float, int), c_ip2_all(float, int), c_ip3_all(float, int); extern void ConvertIp(int *, float *, int *, int); extern void c_fstreset_ip_flags(void);
static int enc(int lev, int old, int kind){ int ip = 0, k = kind; float v = lev; ConvertIp(&ip, &v, &k, old ? 3 : 2); return ip; }
static void allips(int n){ static int no = 0; File F = { 0 }; File *f = &F; snprintf(f->path, 64, "i%d_%d.fst", getpid(), no++); hist[0] = 0; unlink(f->path); openf(f, 0); static const int LV[] = {100, 250, 500, 850}; int lv[200][3];
  for (int k = 0; k < n; k++) { Rec r; rrec(&r, 0); r.ni = k + 1; r.nj = r.nk = 1; r.nw = datawords(&r); for (int i = 0; i < 3; i++) lv[k][i] = LV[vp_rnd() % 4]; r.ip1 = enc(lv[k][0], vp_rnd() & 1, 2); r.ip2 = enc(lv[k][1], vp_rnd() & 1, 2); r.ip3 = enc(lv[k][2], vp_rnd() & 1, 2); append(f, &r, 0); } resync(f);
  for (int t = 0; t < 120; t++) { int m = vp_rnd() % 8, q[3], ip[3], from = -1, ni, nj, nk, h; for (int i = 0; i < 3; i++) { q[i] = LV[vp_rnd() % 4]; ip[i] = -1; } for (;;) { if (m & 1) ip[0] = c_ip1_all(q[0], 2); if (m & 2) ip[1] = c_ip2_all(q[1], 2); if (m & 4) ip[2] = c_ip3_all(q[2], 2); int e = -1; for (int k = from + 1; k < n; k++) { int ok = 1; for (int i = 0; i < 3; i++) if (m >> i & 1 && lv[k][i] != q[i]) ok = 0; if (ok) { e = k; break; } }
      h = from < 0 ? c_fstinf(f->iun, &ni, &nj, &nk, -1, " ", ip[0], ip[1], ip[2], " ", " ") : c_fstinfx(f->r[from].key, f->iun, &ni, &nj, &nk, -1, " ", ip[0], ip[1], ip[2], " ", " ");
      if (e < 0) { VPCHECK(h < 0, "level-search", "search by levels %d (%d %d %d) after record %d finds handle %d; no record has these levels", m, q[0], q[1], q[2], from, h); break; } VPCHECK(h == f->r[e].key && ni == e + 1, "level-search", "search by levels %d (%d %d %d) after record %d finds handle %d (record %d) instead of record %d", m, q[0], q[1], q[2], from, h, h >> 10 & 511, e); if (h != f->r[e].key) break; from = e; } c_fstreset_ip_flags(); }
  closef(f); unlink(f->path); free(f->r); vp_distinct++; }
/* limits: time elapsed beyond 2^31 seconds, records too long, descriptors that do not fit */
static void limits(void){ File F = { 0 }; File *f = &F; snprintf(f->path, 64, "m%d.fst", getpid()); hist[0] = 0; unlink(f->path); openf(f, 0); static const int P[][2] = {{4096, 1048576}, {65536, 65536}, {16384, 262144}, {3600, 1193046}, {1 << 23, 512}, {0xFFFFFF, 128}}; int y = 19850101, h0 = 0, m = 3, st, ni, nj, nk; newdate_(&st, &y, &h0, &m);
  for (int i = 0; i < 6; i++) { Rec r; rrec(&r, 0); r.date = st; r.deet = P[i][0]; r.npas = P[i][1]; double h = (double)r.deet * r.npas / 3600.; int a = st; incdatr_(&a, &a, &h); r.datev = a; append(f, &r, 0); resync(f); checkprm(f, f->r[i].key, &f->r[i], "long run"); char t[3] = "  ", n[5] = "    ", e[13] = "            ", g[2] = " "; int z[22]; c_fstprm(f->r[i].key, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8, z + 9, z + 10, t, n, e, g, z + 11, z + 12, z + 13, z + 14, z + 15, z + 16, z + 17, z + 18, z + 19, z + 20, z + 21); VPCHECK(z[0] == st, "origin", "origin date of %d steps of %d seconds is %d instead of %d", r.npas, r.deet, z[0], st); }
  static const int B[][4] = {{65536, 1024, 1, 64}, {65536, 2048, 1, 32}, {16777215, 16777215, 1, 32}, {1, 1, 1048575, 64}, {40000, 40000, 1, 32}}; for (int i = 0; i < 5; i++) { int rc; if (B[i][0] == 1) continue; rc = c_fstecr(fld, 0, -B[i][3], f->iun, st, 0, 0, B[i][0], B[i][1], B[i][2], 1, 2, 3, "P", "TT", "E", "X", 0, 0, 0, 0, 5, 0); VPCHECK(rc < 0, "too-long", "a record of %d x %d values of %d bits is accepted (%d)", B[i][0], B[i][1], B[i][3], rc); }
  for (int i = 0; i < 24; i++) { int a[13] = {0, 0, 2, 2, 1, 1, 2, 3, 0, 0, 0, 0, 0}, w = i % 12, lim[] = {0xFFFFFF, 0x3FFFFFF, 0xFFFFFF, 0xFFFFFF, 0xFFFFF, 0xFFFFFFF, 0xFFFFFFF, 0xFFFFFFF, 0xFFFFFF, 0xFFFFFF, 0xFFFFFF, 0xFFFFFF}; a[w] = i < 12 ? lim[w] + 1 : w == 4 ? 1 << 21 : -1; int rc = c_fstecr(fld, 0, -32, f->iun, st, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], "P", "TT", "E", "X", a[8], a[9], a[10], a[11], 5, 0); VPCHECK(rc < 0, "range", "descriptor %d out of range (%d) is accepted", w, a[w]); } resync(f);
  closef(f); unlink(f->path); free(f->r); vp_distinct++; }
/* unused entries of a directory page are zero in the file */
static void blankpage(int n){ File F = { 0 }; File *f = &F; snprintf(f->path, 64, "b%d.fst", getpid()); hist[0] = 0; unlink(f->path); openf(f, 0); Rec r; for (int k = 0; k < n; k++) { rrec(&r, 0); append(f, &r, 0); } closef(f); FILE *p = fopen(f->path, "r"); unsigned char *b = malloc(4 << 20); size_t l = fread(b, 1, 4 << 20, p); fclose(p);
  #define W(i) ((uint32_t)b[4*(i)] << 24 | b[4*(i)+1] << 16 | b[4*(i)+2] << 8 | b[4*(i)+3])
  int pg = 2 * (W(0) & 0xFFFFFF), len = 2 * (W(pg) & 0xFFFFFF), per = (len - 8) / 256; VPCHECK(l >= 4u * (pg + len) && W(pg + 5) == (uint32_t)n, "page", "the first directory page is not where the header says"); if (l >= 4u * (pg + len)) for (int i = n * per; i < 256 * per; i++) VPCHECK(W(pg + 8 + i) == 0, "page", "word %d of the unused part of a directory page is %08x in the file", i, W(pg + 8 + i)); free(b); unlink(f->path); free(f->r); vp_distinct++; }
#include <malloc.h>
int main(int argc, char **argv){ vp_init(); mallopt(M_PERTURB, 0xA5); mkdates(); blankpage(0); blankpage(3); blankpage(255); endwrite(1); endwrite(2); freopen("/dev/null", "w", stderr); int T = vp_thorough ? 6 : 1;
  for (int i = 0; i < 30 * T; i++) lifetime(120, 1, 40);
  for (int i = 0; i < 3 * T; i++) lifetime(1500, 0, 560);
  for (int i = 0; i < 8 * T; i++) lifetime(700, 0, 254 + i % 5);
  for (int i = 0; i < 10 * T; i++) linked(vp_in(2, 5), i % 3 == 0 ? 300 : 20);
  for (int i = 0; i < 10 * T; i++) linkedrw(vp_in(2, 5), i % 3 == 0 ? 280 : 12);
  for (int i = 0; i < 3 * T; i++) allips(40);
  limits();
  return vp_done(); }
