/* Claimed sizes of any 64-bit magnitude: with a capacity of real + h bytes, 0 <= h < 2^46 (the output never needs more than real), a call gives
   what it gives with the real capacity; a decoder that reaches the end marker is not affected by more input behind it, however much. */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>
int optsw842_compress(const uint8_t *, size_t, uint8_t *, size_t *); int optsw842_decompress(const uint8_t *, size_t, uint8_t *, size_t *);
static int call(int impl, int op, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
  return op ? (impl ? optsw842_decompress : sw842_decompress)(in, n, out, olen) : (impl ? optsw842_compress : sw842_compress)(in, n, out, olen);
}
static uint64_t extra(const char *nm) {
  uint64_t h = 0; if (!sx_param("part", 0)) { sx_sym(&h, 8, nm); sx_assume(h < (1ull << 46)); return h; }
  static const unsigned sh[3] = {0, 28, 38}; unsigned s = sx_choose(3, "part"); sx_sym(&h, 1, nm); return h << sh[s];
}
static void same(int r, size_t o, const uint8_t *a, int s, size_t p, const uint8_t *b) {
  sx_assert(r == s, "the return value does not depend on unneeded space"); sx_assert(o == p, "the length does not depend on unneeded space");
  if (r == 0) sx_assert(memcmp(a, b, o) == 0, "the bytes do not depend on unneeded space");
}
void sx_main(void) {
  int impl = sx_param("impl", 0), op = sx_param("op", 0); unsigned pre = sx_param("pre", 0), nop = sx_param("nop", 1), tail = sx_param("tail", 16), free_ = sx_param("free", 2);
  size_t n, cap; uint8_t *in;
  if (!op) {
    n = 8 * (pre + 1); in = malloc(n); for (unsigned i = 0; i < pre; i++) { uint64_t x = 0x9e3779b97f4a7c15ull * (i % 3 + 1); memcpy(in + 8 * i, &x, 8); }
    memset(in + 8 * pre, 0x77, 8); sx_sym(in + 8 * pre, free_, "block"); n -= sx_param("cut", 0); cap = 9 * (pre + 1) + 24;
  } else {
    n = ((size_t)pre * 69 + 7) / 8 + tail; n = (n + 7) & ~(size_t)7; in = calloc(n + 16, 1); struct wbits w = {in, n, 0}; cap = 8 * pre + 8 * nop + 8; /* enough unless a repeat is long */
    for (unsigned i = 0; i < pre; i++) { wput(&w, 0, 5); wput(&w, 0x9e3779b97f4a7c15ull * (i + 1), 64); }
    unsigned rem = (8 - (w.pos & 7)) & 7; if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
    sx_sym(in + w.pos / 8, n - w.pos / 8, "tail"); ref_oplimit = pre + nop;
    uint8_t *ref = malloc(cap); (void)ref_decode(in, n, ref, cap, impl == 0); free(ref);
  }
  uint8_t *a = malloc(cap), *b = malloc(cap); uint64_t h = extra("extra");
  size_t o = cap; int r = call(impl, op, in, n, a, &o); sx_observe((uint32_t)r, "ret"); sx_observe(o, "olen");
  if (op && r == -ENOSPC) return;
  if (sx_param("dbg", 0) == 1) return;
  size_t p = cap + (sx_param("dbg", 0) == 2 ? 0 : h); int s = call(impl, op, in, n, b, &p); same(r, o, a, s, p, b);
  if (op && r == 0 && sx_param("more", 1)) { uint64_t g = extra("more"); if (impl) g &= ~7ull; p = cap; s = call(impl, op, in, n + g, b, &p); same(r, o, a, s, p, b); sx_reach("success"); }
}
