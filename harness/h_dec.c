/* Decoder conformance / safety:  impl=0 sw, 1 optsw.  Stream = concrete prefix of pre literal blocks, then symbolic bytes. */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>
int optsw842_decompress(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen);
void sx_main(void) {
  int impl = sx_param("impl", 0); unsigned pre = sx_param("pre", 0), tail = sx_param("tail", 12), capx = sx_param("capx", 24), mis = sx_param("mis", 0), omis = sx_param("omis", mis), mode = sx_param("mode", 0);
  size_t pbits = (size_t)pre * 69, pb = (pbits + 7) / 8; size_t ilen = pb + tail;
  if (sx_param("round", 0)) ilen = (ilen + 7) & ~(size_t)7;
  uint8_t *in0 = malloc(ilen + mis), *in = in0 + mis; size_t cap = pre * 8 + capx; uint8_t *out0 = malloc(cap + omis), *out = out0 + omis, *ref = malloc(cap ? cap : 1);
  struct wbits w = {in, ilen, 0};
  for (unsigned i = 0; i < pre; i++) { uint64_t x = 0x9e3779b97f4a7c15ull * (i + 1); wput(&w, 0, 5); wput(&w, x, 64); }
  if (sx_param("op0", 0)) wput(&w, sx_param("op0", 0), 5); /* the first operation after the prefix */
  unsigned rem = (8 - (w.pos & 7)) & 7; /* bits left in the last prefix byte are symbolic too */
  if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
  size_t tl = ilen - w.pos / 8; sx_sym(in + w.pos / 8, tl, "tail");
  if (sx_param("nop", 0)) ref_oplimit = pre + sx_param("nop", 0);
  uint8_t *copy = malloc(ilen ? ilen : 1); memcpy(copy, in, ilen);
  struct refres r = ref_decode(in, ilen, ref, cap, impl == 0 || mis || omis);
  if (mode == 1) sx_assume(r.ok); 
  if (r.ok) sx_reach("accept"); else sx_reach("reject");
  if (sx_param("fill", 0)) { uint8_t f; sx_sym(&f, 1, "fill"); sx_fill(f); } /* uninitialised memory holds any byte */
  size_t olen = cap; int ret = impl ? optsw842_decompress(in, ilen, out, &olen) : sw842_decompress(in, ilen, out, &olen);
  sx_observe((uint32_t)ret, "ret"); sx_observe(olen, "olen");
  sx_assert(memcmp(in, copy, ilen) == 0, "input unchanged");
  if (r.after_short) { sx_assert(ret == 0 ? olen <= cap : ret < 0 && olen == 0, "malformed stream: error contract"); return; }
  if (impl && !mis && !omis && ilen % 8) { /* optsw reads whole words only: it may refuse such a stream, but must not misread it */
    sx_assert(ret == 0 ? r.ok && olen == r.n && memcmp(out, ref, r.n) == 0 : ret < 0 && olen == 0, "partial last word: rejected, or decoded like the reference"); return;
  }
  sx_assert((ret == 0) == r.ok, "stream accepted iff the format's reference decoder accepts it");
  if (ret == 0) {
    sx_assert(olen == r.n, "decompressed length equals the reference length");
    sx_assert(memcmp(out, ref, r.n) == 0, "decompressed bytes equal the reference bytes");
    sx_observe_n(out + (r.n > 256 ? r.n - 256 : 0), r.n > 256 ? 256 : r.n, "out");
  } else {
    sx_assert(ret < 0 && olen == 0, "failure returns a negative errno and *olen == 0");
    if (r.cause == RC_SPACE) sx_assert(ret == -ENOSPC, "output exhausted is -ENOSPC");
    if (!(r.cause & RC_SPACE)) sx_assert(ret != -ENOSPC, "-ENOSPC only when the output is exhausted");
  }
}
