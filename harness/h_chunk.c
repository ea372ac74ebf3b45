/* Chunked entry points.  mode 0: the shared loop over a recording single-chunk function, all strides/lengths symbolic.
   mode 1: the real chunked functions against one call per chunk (op 0 sw compress, 1 sw decompress, 2 optsw compress, 3 optsw decompress). */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>
#include "trivial_chunked.h"
static struct { const uint8_t *in; size_t il; uint8_t *out; size_t *ol; size_t olv; int ret; } calls[8]; static unsigned ncalls; static int bad;
static int rec(const uint8_t *in, size_t il, uint8_t *out, size_t *ol) {
  if (ncalls >= 8) { bad = 1; return 0; }
  int r; uint8_t rb, ob[2]; sx_sym(&rb, 1, "ret"); sx_sym(ob, 2, "olen"); r = -(int)rb;
  calls[ncalls].in = in; calls[ncalls].il = il; calls[ncalls].out = out; calls[ncalls].ol = ol; calls[ncalls].olv = *ol; calls[ncalls].ret = r; ncalls++;
  *ol = ob[0] << 8 | ob[1]; return r;
}
LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS(rec_c, rec)
LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS(rec_d, rec)
static uint64_t sym64(const char *n) { uint8_t b[8]; sx_sym(b, 8, n); uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[i]; return v; }
typedef int (*one)(const uint8_t *, size_t, uint8_t *, size_t *);
typedef int (*many)(size_t, int *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *);
void sx_main(void) {
  unsigned mode = sx_param("mode", 0), N = sx_param("n", 3);
  if (mode == 0) {
    unsigned n = sx_choose(N + 1, "n"); many f = sx_choose(2, "which") ? rec_d : rec_c; size_t is = sym64("istride"), os = sym64("ostride"), il[8], ol[8], ol0[8]; int rets[8]; uint8_t src = 0, dst = 0;
    for (unsigned i = 0; i < n; i++) { il[i] = sym64("ilen"); ol0[i] = ol[i] = sym64("ocap"); rets[i] = 0x5a5a; }
    int r = f(n, rets, &src, is, il, &dst, os, ol);
    sx_observe((uint32_t)r, "r"); (void)r;
    sx_assert(!bad, "no call beyond the number of chunks");
    unsigned c = 0;
    for (unsigned i = 0; i < n; i++) {
      if (il[i] == SIZE_MAX) { sx_assert(ol[i] == ol0[i], "skipped chunk: its olen is not touched"); sx_reach("skip"); continue; }
      sx_assert(c < ncalls, "every other chunk is processed");
      sx_assert((uintptr_t)calls[c].in == (uintptr_t)&src + i * is, "chunk input at in + i*istride");
      sx_assert((uintptr_t)calls[c].out == (uintptr_t)&dst + i * os, "chunk output at out + i*ostride");
      sx_assert(calls[c].il == il[i] && calls[c].olv == ol0[i], "chunk lengths passed through");
      sx_assert(rets[i] == calls[c].ret, "rets[i] is the chunk's own result");
      c++;
    }
    sx_assert(c == ncalls, "one call per chunk, in order");
    sx_reach("done"); return;
  }
  static const one ONE[] = {sw842_compress, sw842_decompress, optsw842_compress, optsw842_decompress};
  static const many MANY[] = {sw842_compress_chunked, sw842_decompress_chunked, optsw842_compress_chunked, optsw842_decompress_chunked};
  unsigned op = sx_param("op", 0), il = sx_param("il", 8), cap = sx_param("cap", 32), gap = sx_param("gap", 8), sym = sx_param("sym", 1), viaimpl = sx_param("impl", 0); size_t is = il + gap, os = cap + gap;
  uint8_t *in = malloc(N * is - gap), *out = malloc(N * os - gap), *o2 = malloc(N * os - gap); size_t ils[8], ols[8], ol2[8]; int rets[8], r2[8];
  memset(in, 0, N * is - gap);
  unsigned skip = sx_choose(N + 1, "skip"); /* N: none */
  for (unsigned i = 0; i < N; i++) {
    ils[i] = i == skip ? SIZE_MAX : il; ols[i] = ol2[i] = cap; rets[i] = r2[i] = 7;
    uint8_t *p = in + i * is;
    if (i == sym) sx_sym(p, il, "chunk");
    else if (op & 1) { struct wbits w = {p, il, 0}; wput(&w, 28, 5); wput(&w, 30, 5); wput(&w, i == 2, 32); }   /* zeros block; chunk 2 has a bad CRC */
    else for (unsigned k = 0; k < il; k++) p[k] = (uint8_t)(k * 31 + i * 7);
    if (i == 0 && N > 2) ol2[i] = ols[i] = 4;                                          /* too small */
  }
  if (op & 1) { struct rbits b = {in + sym * is, 8 * il, 0, 0}; static const uint8_t half[5] = {32, 24, 24, 16, 9};
    for (int k = 0; k < 4; k++) { uint64_t o = sx_conc(rget(&b, 5)); if (o == 30 || b.trunc) break; if (sx_param("nop", 0)) sx_assume(k < (int)sx_param("nop", 0)); if (o < 25) b.pos += half[o / 5] + half[o % 5]; else if (o == 25) b.pos += 8; else if (o == 27) sx_conc(rget(&b, 6)); else if (o == 29) b.pos += 8 * sx_conc(rget(&b, 3)); } }
  memset(out, 0x33, N * os - gap); memset(o2, 0x33, N * os - gap);
  const struct lib842_implementation *I = op < 2 ? get_sw842_implementation() : get_optsw842_implementation();
  many m = viaimpl ? (op & 1 ? I->decompress_chunked : I->compress_chunked) : MANY[op]; one s = viaimpl ? (op & 1 ? I->decompress : I->compress) : ONE[op];
  if (viaimpl) { sx_assert(I->required_alignment >= 1 && I->preferred_alignment >= I->required_alignment, "implementation alignments"); s = ONE[op]; }
  int r = m(N, rets, in, is, ils, out, os, ols); sx_observe((uint32_t)r, "r");
  for (unsigned i = 0; i < N; i++) if (i != skip) r2[i] = s(in + i * is, il, o2 + i * os, &ol2[i]);
  for (unsigned i = 0; i < N; i++) {
    if (i == skip) { sx_assert(ols[i] == cap || (i == 0 && ols[i] == 4), "skipped chunk: olen untouched"); }
    else { sx_assert(rets[i] == r2[i], "same result as a single call"); sx_assert(ols[i] == ol2[i], "same length as a single call"); sx_observe((uint32_t)rets[i], "ret"); sx_observe(ols[i], "olen"); }
  }
  sx_assert(memcmp(out, o2, N * os - gap) == 0, "same bytes as single calls, nothing else written");
  sx_reach("done");
}
