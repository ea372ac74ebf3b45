/* A call's result does not depend on other calls: y is called, then x, then y again (thr=0), or x and y at the same time in two threads (thr=1,
   every access checked for races).  Operations: 0 sw compress, 1 sw decompress, 2 optsw compress, 3 optsw decompress.
   The inputs of the operation 'sym' (0 x, 1 y) are symbolic, the other one runs each of several fixed variants, failing ones included. */
extern "C" {
#include "sx.h"
}
#include "ref842.h"
#include <stdlib.h>
#include <thread>
#include <lib842/sw.h>
#include "sxthread.h"
struct Call { unsigned op; uint8_t *in; size_t n, cap; };
struct Res { int ret; size_t olen; uint8_t *out; };
static uint64_t mix(uint64_t i) { i += 0x9e3779b97f4a7c15ull; i = (i ^ (i >> 30)) * 0xbf58476d1ce4e5b9ull; i = (i ^ (i >> 27)) * 0x94d049bb133111ebull; return i ^ (i >> 31); }
static uint64_t content(unsigned kind, unsigned i) { return kind == 0 ? mix(i) : kind == 1 ? mix(i % 5) : i % 3 == 2 ? 0 : mix(i / 3); }
static Res run(const Call &c, uint8_t fill) {
  Res r; r.out = (uint8_t *)malloc(c.cap + !c.cap); memset(r.out, fill, c.cap + !c.cap); r.olen = c.cap;
  switch (c.op) {
  case 0: r.ret = sw842_compress(c.in, c.n, r.out, &r.olen); break;
  case 1: r.ret = sw842_decompress(c.in, c.n, r.out, &r.olen); break;
  case 2: r.ret = optsw842_compress(c.in, c.n, r.out, &r.olen); break;
  default: r.ret = optsw842_decompress(c.in, c.n, r.out, &r.olen);
  }
  return r;
}
static void same(const Res &a, const Res &b) {
  sx_assert(a.ret == b.ret && a.olen == b.olen, "the same call gives the same result");
  if (a.ret == 0) sx_assert(memcmp(a.out, b.out, a.olen) == 0, "the same call gives the same bytes");
}
static Call make(unsigned op, int sym, unsigned pre, const char *nm) {
  Call c; c.op = op; unsigned kind = sx_param("kind", 1);
  if (!(op & 1)) { /* compress: pre blocks, then one more */
    unsigned v = sym ? 0 : sx_choose(4, nm); if (!sym && v == 3) pre += 70;
    c.n = 8 * (pre + 1); c.in = (uint8_t *)malloc(c.n); for (unsigned i = 0; i <= pre; i++) { uint64_t x = content(kind, i); memcpy(c.in + 8 * i, &x, 8); }
    if (sym && sx_param("shape", 0)) { /* every operation: each half of the last block is new or made of parts of the first block */
      unsigned h = sx_choose(5, "half_a"), g = sx_choose(5, "half_b"); uint8_t *d = c.in + 8 * pre; static const uint8_t m[5] = {0, 2, 1, 3, 3};
      for (unsigned q = 0; q < 4; q++) { unsigned k = q < 2 ? h : g; if (m[k] >> (q & 1) & 1) memcpy(d + 2 * q, c.in + (k == 4 ? 2 * (q & 1) + 4 * (g != h) : 2 * (3 - q)), 2); }
      sx_sym(d + 7, 1, "block");
    } else if (sym) { unsigned f = sx_param("free", 2); sx_sym(c.in + 8 * pre, f, "block"); }
    c.cap = v == 1 ? 8 : 9 * (pre + 1) + 16; if (v == 2 && op == 2) c.n -= 3;   /* no space; odd length */
  } else { /* decompress: pre literal blocks, then any bytes, or a fixed end */
    unsigned v = sym ? 0 : sx_choose(5, nm), tail = sym ? sx_param("tail", 14) : 24; if (!sym && v == 3) pre += 70;
    c.n = ((size_t)pre * 69 + 7) / 8 + tail; c.n = (c.n + 7) & ~(size_t)7; c.in = (uint8_t *)calloc(c.n, 1); struct wbits w = {c.in, c.n, 0};
    for (unsigned i = 0; i < pre; i++) { wput(&w, 0, 5); wput(&w, content(kind, i), 64); }
    c.cap = 8 * pre + 24;
    if (sym) {
      unsigned rem = (8 - (w.pos & 7)) & 7; if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
      sx_sym(c.in + w.pos / 8, c.n - w.pos / 8, "tail");
      uint8_t *ref = (uint8_t *)malloc(c.cap); ref_oplimit = pre + 1; (void)ref_decode(c.in, c.n, ref, c.cap, op == 1); free(ref); /* one path per sequence of operations */
    } else {
      uint8_t *ref = (uint8_t *)malloc(8 * pre + 8); for (unsigned i = 0; i < pre; i++) for (int b = 0; b < 8; b++) ref[8 * i + b] = (uint8_t)(content(kind, i) >> (56 - 8 * b)); memset(ref + 8 * pre, 0, 8);
      unsigned m = pre; if (v != 4) { wput(&w, 28, 5); m++; }
      if (v == 1) wput(&w, 31, 5); /* undefined operation */
      wput(&w, 30, 5); wput(&w, ref_crc(ref, 8 * m) ^ (v == 2), 32); free(ref); if (v == 4) c.cap = pre ? 8 * pre - 8 : 0; /* wrong checksum; no space */
    }
  }
  return c;
}
extern "C" void sx_main(void) {
  unsigned x = sx_param("x", 0), y = sx_param("y", 0), sym = sx_param("sym", 1), thr = sx_param("thr", 0), pre = sx_param("pre", 2);
  Call cx = make(x, sym == 0, pre, "variant_x"), cy = make(y, sym == 1, pre, "variant_y");
  std::thread t[2]; sx_leak_begin(); sx_fill(0x5a);
  if (!thr) {
    Res y1 = run(cy, 0x11); sx_observe((uint32_t)y1.ret, "ret"); sx_observe(y1.olen, "olen"); if (y1.ret == 0) { sx_reach("success"); } else sx_reach("failure");
    sx_fill(0xa5); Res x1 = run(cx, 0x22); sx_fill(0); Res y2 = run(cy, 0xee); same(y1, y2);
    Res x2 = run(cx, 0x33); same(x1, x2); free(y1.out); free(x1.out); free(x2.out); free(y2.out);
  } else { /* the first calls of the process, at the same time */
    Res r[2];
    t[0] = std::thread([&] { r[0] = run(cx, 0x44); }); t[1] = std::thread([&] { r[1] = run(cy, 0x55); });
    t[0].join(); t[1].join();
    sx_observe((uint32_t)r[1].ret, "ret"); sx_observe(r[1].olen, "olen"); if (r[1].ret == 0) { sx_reach("success"); } else sx_reach("failure");
    sx_fill(0xa5); Res y1 = run(cy, 0x11), x1 = run(cx, 0x22); same(x1, r[0]); same(y1, r[1]); free(y1.out); free(x1.out); free(r[0].out); free(r[1].out);
  }
  sx_leak_check(); sx_reach("done");
}
