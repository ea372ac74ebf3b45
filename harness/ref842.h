/* Reference model of the 842 format, written from the format description (src/common/842.h comments). */
#ifndef REF842_H
#define REF842_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static uint32_t ref_crctab[256]; static int ref_crcinit;
static uint32_t ref_crc(const uint8_t *p, size_t n) {        /* CRC-32, poly 0x04c11db7, MSB first, init 0, no final xor */
  if (!ref_crcinit) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i << 24; for (int k = 0; k < 8; k++) c = (c << 1) ^ ((c >> 31) ? 0x04c11db7u : 0); ref_crctab[i] = c; } ref_crcinit = 1; }
  uint32_t c = 0; for (size_t i = 0; i < n; i++) c = (c << 8) ^ ref_crctab[((c >> 24) ^ p[i]) & 255];
  return c;
}
struct rbits { const uint8_t *p; uint64_t nbits, pos; int trunc; };
static uint64_t rget(struct rbits *b, unsigned n) {
  uint64_t v = 0; if (b->trunc || b->pos + n > b->nbits) { b->trunc = 1; return 0; }
  while (n) { unsigned o = b->pos & 7, k = 8 - o; if (k > n) k = n; uint64_t x = b->p[b->pos >> 3]; x = (x >> (8 - o - k)) & ((1u << k) - 1); v = (v << k) | x; b->pos += k; n -= k; }
  return v;
}
struct wbits { uint8_t *p; uint64_t cap, pos; };             /* bit writer used to build streams */
static void wput(struct wbits *b, uint64_t v, unsigned n) {
  while (n) { unsigned o = b->pos & 7, k = 8 - o; if (k > n) k = n; uint8_t x = (uint8_t)((v >> (n - k)) & ((1u << k) - 1)); uint8_t *q = b->p + (b->pos >> 3); if (o == 0) *q = 0; *q |= (uint8_t)(x << (8 - o - k)); b->pos += k; n -= k; }
}
enum { RC_TRUNC = 1, RC_SPACE = 2, RC_BAD = 4, RC_CRC = 8 };
struct refres { int ok; int cause; size_t n; unsigned nops; unsigned shortd; unsigned maxop; unsigned special; /* zero and repeat operations */ uint64_t endbit; unsigned idxbad; int shortpos; int after_short; };
/* The two halves of template t (0..24) are chosen by t/5 and t%5 from:
   0 = D2 D2, 1 = D2 I2, 2 = I2 D2, 3 = I2 I2, 4 = I4.  Template 25 = I8.   27 repeat, 28 zeros, 29 short data, 30 end */
static uint64_t ref_resolve(uint64_t idx, unsigned size, uint64_t fsize, uint64_t total) { /* position in the output */
  uint64_t off = idx * size;
  if (total > fsize) { uint64_t sec = total / fsize * fsize, pos = total - sec; if (off >= pos) sec -= fsize; off += sec; }
  return off;
}
static int ref_index(uint8_t *out, size_t at, uint64_t idx, unsigned size, uint64_t fsize, uint64_t total) {
  uint64_t off = ref_resolve(idx, size, fsize, total);
  if (off + size > total) return 0;
  for (unsigned i = 0; i < size; i++) out[at + i] = out[off + i];
  return 1;
}
static unsigned ref_oplimit;   /* when set: at most this many operations before END (assumed) */
/* 'out' must have cap bytes */
static struct refres ref_decode(const uint8_t *in, size_t ilen, uint8_t *out, size_t cap, int allow_short) {
  struct rbits b = {in, (uint64_t)ilen * 8, 0, 0}; struct refres r; memset(&r, 0, sizeof r); r.shortpos = -1;
  size_t n = 0;
  for (;;) {
    uint64_t op = sx_conc(rget(&b, 5)); if (b.trunc) { r.cause = RC_TRUNC; return r; }
    r.nops++; if (ref_oplimit && r.nops > ref_oplimit) sx_assume(op == 30);
    uint64_t total = n & ~(size_t)7;
    if (op == 30) break;
    if (r.shortd) r.after_short = 1;   /* SHORT_DATA is only defined as the last operation before END */
    if (op < 26) {
      int cause = 0; uint8_t blk[8]; unsigned w = 0; uint64_t iv[4]; unsigned isz[4], iat[4], ni = 0;
      if (op == 25) { iv[ni] = rget(&b, 8); isz[ni] = 8; iat[ni++] = 0; w = 8; }
      else for (int h = 0; h < 2; h++) {
        unsigned c = h ? op % 5 : op / 5;
        if (c == 4) { iv[ni] = rget(&b, 9); isz[ni] = 4; iat[ni++] = w; w += 4; }
        else for (int q = 0; q < 2; q++) {
          int isidx = q ? (c & 1) : (c >> 1);
          if (isidx) { iv[ni] = rget(&b, 8); isz[ni] = 2; iat[ni++] = w; } else { uint64_t d = rget(&b, 16); blk[w] = d >> 8; blk[w + 1] = (uint8_t)d; }
          w += 2;
        }
      }
      if (b.trunc) cause |= RC_TRUNC;
      if (n > cap || cap - n < 8) cause |= RC_SPACE;
      if (!(cause & RC_SPACE)) for (unsigned i = 0; i < 8; i++) out[n + i] = blk[i];
      if (!b.trunc) for (unsigned i = 0; i < ni; i++) {
        uint64_t fs = isz[i] == 2 ? 512 : 2048;
        if (cause & RC_SPACE) { if (ref_resolve(iv[i], isz[i], fs, total) + isz[i] > total) cause |= RC_BAD; }
        else if (!ref_index(out, n + iat[i], iv[i], isz[i], fs, total)) { cause |= RC_BAD; r.idxbad = 1; break; }
      }
      if (cause) { r.cause = cause; return r; }
      n += 8; if (op > r.maxop) r.maxop = op;
    } else if (op == 27) {
      r.special++;
      uint64_t c = sx_conc(rget(&b, 6)); int cause = 0; if (b.trunc) cause |= RC_TRUNC; if (n < 8) cause |= RC_BAD; 
      if (!b.trunc && (c + 1) * 8 > cap - n) cause |= RC_SPACE;
      if (cause) { r.cause = cause; return r; }
      for (uint64_t k = 0; k <= c; k++) { memcpy(out + n, out + n - 8, 8); n += 8; }
    } else if (op == 28) {
      r.special++;
      if (cap - n < 8) { r.cause = RC_SPACE; return r; } memset(out + n, 0, 8); n += 8;
    } else if (op == 29 && allow_short) {
      uint64_t c = sx_conc(rget(&b, 3)); int cause = 0; if (b.trunc) cause |= RC_TRUNC; if (!c) cause |= RC_BAD; if (c > cap - n) cause |= RC_SPACE;
      if (b.pos + c * 8 > b.nbits) cause |= RC_TRUNC;
      if (cause) { r.cause = cause; return r; }
      for (uint64_t k = 0; k < c; k++) out[n++] = (uint8_t)rget(&b, 8);
      r.shortd++; if (r.shortpos < 0) r.shortpos = r.nops;
    } else { r.cause = RC_BAD; return r; }
  }
#ifdef REF_CRCLESS  /* the stream ends with its end marker */
  uint64_t crc = 0;
#else
  uint64_t crc = rget(&b, 32);
#endif
  r.endbit = b.pos; if (b.trunc) { r.cause = RC_TRUNC; return r; }
#if defined(REF_NOCRC) || defined(REF_CRCLESS)
  uint32_t want = (uint32_t)crc;
#else
  uint32_t want = ref_crc(out, n);
#endif
  r.n = n; if ((uint32_t)crc != want) { r.cause = RC_CRC; return r; }
  r.ok = 1; return r;
}
#endif
