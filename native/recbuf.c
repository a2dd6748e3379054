/* Record buffers (as edited by the BURP routines) against a model: a list of blocks of elements. */
#include "vp.h"
#include <stddef.h>
#include "fstd98/qstdir.h"
int c_xdfadd(void*,uint32_t*,int,int,int), c_xdfins(void*,uint32_t*,int,int,int,int), c_xdfrep(void*,uint32_t*,int,int,int,int), c_xdfcut(void*,int,int,int,int), c_xdfxtr(void*,uint32_t*,int,int,int,int);
typedef struct { int n, nbits, datyp, words; uint32_t v[80]; } Blk;
static Blk B[200]; static int nb; static char hist[3000];
static void H(const char *f, ...){ char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); size_t l = strlen(hist), m = strlen(b); if (l + m > 1200) { memmove(hist, hist + l / 2, l - l / 2 + 1); l = strlen(hist); } memcpy(hist + l, b, m + 1); }
static int up(uint32_t w){ uint32_t r = 0; for (int k = 0; k < 4; k++) { uint32_t c = (w >> 8 * k) & 255; if (c >= 'a' && c <= 'z') c -= 32; r |= c << 8 * k; } return r; }
static void mk(Blk *b){ static const int T[] = {0, 2, 2, 4, 3, 5, 6, 7, 8, 9}; b->datyp = T[vp_rnd() % 10]; b->nbits = b->datyp == 2 ? vp_in(1, 32) : b->datyp == 4 ? vp_in(2, 32) : b->datyp == 3 || b->datyp == 5 ? 8 : b->datyp == 7 || b->datyp == 9 ? 64 : 32; b->n = vp_in(1, 40); if (b->nbits == 64 && b->n > 30) b->n = 30; b->words = (b->n * b->nbits + 63) / 64 * 2; memset(b->v, 0, sizeof b->v); int nw = b->datyp == 2 || b->datyp == 4 ? b->n : b->words;
  for (int k = 0; k < nw; k++) { uint32_t x = vp_int32(); if (b->datyp == 2 && b->nbits < 32) x &= (1u << b->nbits) - 1; if (b->datyp == 4) x = (int32_t)(x << (32 - b->nbits)) >> (32 - b->nbits); if (b->datyp == 5 || b->datyp == 3) { x = 0; for (int q = 0; q < 4; q++) x |= (uint32_t)" 0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[vp_rnd() % 63] << 8 * q; } b->v[k] = x; } }
static int pos(int k){ int p = 0; for (int i = 0; i < k; i++) p += B[i].words; return p * 32; }
static int total(void){ return pos(nb) / 32; }
static buffer_interface_ptr buf; static int cap, keys, dim;
static void check(const char *when){ VPCHECK(buf->nbits == 32u * (keys + total()), "size", "after %s: %u bits recorded instead of %d; %s", when, buf->nbits, 32 * (keys + total()), hist); uint32_t *w = (uint32_t *)buf; for (int i = 0; i < 40; i++) VPCHECK(w[dim + i] == 0xC0FFEE00u + i, "overrun", "after %s: word %d past the end of the buffer (dimension %d) changed; %s", when, i, dim, hist);
  for (int i = 0; i < keys; i++) VPCHECK(buf->data[i] == 0xFEED0000u + i, "keys", "after %s: key word %d changed; %s", when, i, hist);
  for (int k = 0; k < nb; k++) { uint32_t out[120]; for (int i = 0; i < 120; i++) out[i] = 0x5A5A5A5A; int rc = c_xdfxtr(buf, out, pos(k), B[k].n, B[k].nbits, B[k].datyp); VPCHECK(rc == 0, "extract", "after %s: extracting block %d (type %d) returns %d; %s", when, k, B[k].datyp, rc, hist); if (rc) return; int ne = B[k].datyp == 2 || B[k].datyp == 4 ? B[k].n : B[k].words;
    for (int i = 0; i < ne; i++) { uint32_t e = B[k].datyp == 5 ? (uint32_t)up(B[k].v[i]) : B[k].v[i]; VPCHECK(out[i] == e, "block", "after %s: block %d (type %d, %d elements of %d bits) element %d is %08x instead of %08x; %s", when, k, B[k].datyp, B[k].n, B[k].nbits, i, out[i], e, hist); if (out[i] != e) return; } VPCHECK(out[ne] == 0x5A5A5A5A && out[ne + 1] == 0x5A5A5A5A, "extract", "after %s: extraction wrote past the block; %s", when, hist); } }
static void life(int ops){ keys = 2 * vp_in(0, 12); cap = keys + vp_in(2, 260); dim = (int)(offsetof(buffer_interface, data) / 4) + cap; uint32_t *raw = malloc(4 * (dim + 41)); for (int i = 0; i < dim + 41; i++) raw[i] = 0; for (int i = 0; i < 40; i++) raw[dim + i] = 0xC0FFEE00u + i; buf = (buffer_interface_ptr)raw; buf->nwords = dim; buf->record_index = 0; buf->data_index = keys; buf->nbits = keys * 32; for (int i = 0; i < keys; i++) buf->data[i] = 0xFEED0000u + i; nb = 0; hist[0] = 0; H(" capacity %d keys %d", cap, keys);
  for (int o = 0; o < ops; o++) { int w = vp_rnd() % 8; Blk b; if (w < 2) { mk(&b); int at = vp_rnd() % (nb + 1), fits = keys + total() + b.words <= cap; H(" ins@%d[%d:%dx%d]", at, b.datyp, b.n, b.nbits); int rc = c_xdfins(buf, b.v, pos(at), b.n, b.nbits, b.datyp); VPCHECK((rc == 0) == fits, "capacity", "inserting %d words at block %d, %d of %d words used: returns %d; %s", b.words, at, keys + total(), cap, rc, hist); if (rc == 0 && fits) { memmove(B + at + 1, B + at, (nb - at) * sizeof(Blk)); B[at] = b; nb++; } check("insertion"); }
    else if (w < 4) { mk(&b); int fits = keys + total() + b.words <= cap; H(" add[%d:%dx%d]", b.datyp, b.n, b.nbits); int rc = c_xdfadd(buf, b.v, b.n, b.nbits, b.datyp); VPCHECK((rc == 0) == fits, "capacity", "adding %d words, %d of %d words used: returns %d; %s", b.words, keys + total(), cap, rc, hist); if (rc == 0 && fits) B[nb++] = b; check("addition"); }
    else if (w < 6 && nb) { int k = vp_rnd() % nb, fresh = 0; do mk(&b); while (b.words != B[k].words && fresh++ < 40); if (b.words != B[k].words) { b = B[k]; for (int i = 0; i < b.n && b.nbits == 32; i++) b.v[i] ^= i + 1; if (b.datyp == 3 || b.datyp == 5) b.v[0] = 0x61626364; } H(" rep@%d[%d:%dx%d]", k, b.datyp, b.n, b.nbits); int rc = c_xdfrep(buf, b.v, pos(k), b.n, b.nbits, b.datyp); VPCHECK(rc == 0, "replace", "replacing block %d of %d words returns %d; %s", k, b.words, rc, hist); if (rc == 0) B[k] = b; check("replacement"); }
    else if (w == 6 && nb) { int k = vp_rnd() % nb; H(" cut@%d", k); int rc = c_xdfcut(buf, pos(k), B[k].n, B[k].nbits, B[k].datyp); VPCHECK(rc == 0, "cut", "cutting block %d (type %d) returns %d; %s", k, B[k].datyp, rc, hist); if (rc == 0) { memmove(B + k, B + k + 1, (nb - k - 1) * sizeof(Blk)); nb--; } check("cut"); }
    else { uint32_t x[4] = { 0 }; int off = vp_in(1, 63); VPCHECK(c_xdfins(buf, x, off, 1, 32, 0) < 0 && c_xdfrep(buf, x, off, 1, 32, 0) < 0 && c_xdfcut(buf, off, 1, 32, 0) < 0 && c_xdfxtr(buf, x, off, 1, 32, 0) < 0, "alignment", "a bit position of %d is accepted; %s", off, hist); static const int bt[] = {1, 10, 11, 15, -1}; int t = bt[vp_rnd() % 5]; VPCHECK(c_xdfxtr(buf, x, 0, 1, 32, t) < 0, "type", "data type %d is accepted", t); VPCHECK(c_xdfadd(buf, x, 1, 16, 3) < 0 && c_xdfcut(buf, 0, 1, 16, 3) < 0, "type", "16-bit characters are accepted"); check("refusals"); } }
  free(raw); vp_distinct++; }
int main(void){ vp_init(); freopen("/dev/null", "w", stderr); int T = vp_thorough ? 8 : 1; for (int i = 0; i < 400 * T; i++) life(120); return vp_done(); }
