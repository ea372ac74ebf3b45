/* Decoders on arbitrary bytes, no reference model: memory safety, termination, error contract.
   Stream = pre literal blocks, then tail symbolic bytes (the first may share a byte with the prefix). Buffers have exactly the declared sizes. */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>
void sx_main(void) {
  int impl = sx_param("impl", 0); unsigned pre = sx_param("pre", 0), tail = sx_param("tail", 12), cap = sx_param("cap", 24), mis = sx_param("mis", 0), omis = sx_param("omis", mis);
  size_t pb = ((size_t)pre * 69 + 7) / 8, ilen = pb + tail; cap += 8 * pre;
  if (sx_param("round", 0)) ilen = (ilen + 7) & ~(size_t)7;
  uint8_t *in = (uint8_t *)malloc(ilen + mis + !(ilen + mis)) + mis, *copy = malloc(ilen + !ilen), *out = (uint8_t *)malloc(cap + omis + !(cap + omis)) + omis;
  struct wbits w = {in, ilen, 0};
  for (unsigned i = 0; i < pre; i++) { wput(&w, 0, 5); wput(&w, 0x9e3779b97f4a7c15ull * (i + 1), 64); }
  unsigned rem = (8 - (w.pos & 7)) & 7; if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
  size_t tl = ilen - w.pos / 8; if (tl) sx_sym(in + w.pos / 8, tl, "tail");
  memcpy(copy, in, ilen);
  /* one path per sequence of operations: walk the opcodes first */
  unsigned nop = sx_param("nop", 0), ops = 0;
  struct rbits b = {in, (uint64_t)ilen * 8, (uint64_t)pre * 69, 0}; size_t n = 8 * (size_t)pre;
  while (n <= cap && sx_param("walk", !impl)) {
    static const uint8_t half[5] = {32, 24, 24, 16, 9}; uint64_t op = sx_conc(rget(&b, 5)); if (b.trunc || op == 30) break; if (nop) sx_assume(ops++ < nop);
    if (op < 25) { b.pos += half[op / 5] + half[op % 5]; n += 8; } else if (op == 25) { b.pos += 8; n += 8; } else if (op == 28) n += 8;
    else if (op == 27) n += 8 * (1 + sx_conc(rget(&b, 6))); else if (op == 29 && (!impl || mis)) { unsigned c = sx_conc(rget(&b, 3)); if (!c) break; b.pos += 8 * c; n += c; } else break;
  }
  sx_leak_begin();
  size_t olen = cap; int ret = impl ? optsw842_decompress(in, ilen, out, &olen) : sw842_decompress(in, ilen, out, &olen);
  sx_leak_check();
  sx_observe((uint32_t)ret, "ret"); sx_observe(olen, "olen");
  sx_assert(memcmp(in, copy, ilen) == 0, "input unchanged");
  sx_assert(ret <= 0 && ret >= -4095, "0 or a negative errno");
  if (ret) sx_assert(olen == 0, "*olen == 0 after a failure"); else { sx_assert(olen <= cap, "*olen stays within the output buffer"); sx_reach("accept"); }
  if (ret) sx_reach("reject");
}
