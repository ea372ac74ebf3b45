/* Compressors.  Input = concrete prefix (pre 8-byte blocks of a chosen kind) + nsym symbolic 8-byte blocks + tail symbolic bytes.
   impl 0 sw842, 1 optsw842; mis = misalignment of both buffers, omis = of the output if different. */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>

static uint64_t mix(uint64_t i) { i += 0x9e3779b97f4a7c15ull; i = (i ^ (i >> 30)) * 0xbf58476d1ce4e5b9ull; i = (i ^ (i >> 27)) * 0x94d049bb133111ebull; return i ^ (i >> 31); }
static void put64(uint8_t *p, uint64_t x) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(x >> (56 - 8 * i)); }
static uint64_t block(unsigned kind, unsigned i) {
  switch (kind) {
  case 0: return mix(i);                                 /* all different */
  case 1: return 0;                                      /* zeros */
  case 2: return 0x1122334455667788ull;                  /* one repeated block */
  case 3: { uint64_t w = mix(i % 5) & 0xffff, v = mix(i) & 0xffff; return w << 48 | v << 32 | (w ^ 1) << 16 | (v & 3); }  /* few distinct 2-byte words */
  case 6: return i >= 256 && i < 330 ? 0x1122334455667788ull : mix(i);   /* a run longer than 64 after the rings have filled */
  case 7: return i % 97 > 80 ? 0 : i % 7 == 6 ? mix(i - 1) : mix(i);     /* zero runs and pairs */
  case 8: return i < 3 ? mix(i) : i & 64 ? mix(i >> 6) : mix(i % 3);     /* long runs of one block */
  case 4: return mix(i & ~1u) ^ (i & 1 ? 0xff00000000000000ull : 0);   /* pairs sharing the low 4 bytes */
  default: return i % 3 == 2 ? 0 : mix(i / 3);
  }
}
static int comp(int impl, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) { return impl ? optsw842_compress(in, n, out, olen) : sw842_compress(in, n, out, olen); }
static int decomp(int impl, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) { return impl ? optsw842_decompress(in, n, out, olen) : sw842_decompress(in, n, out, olen); }

#ifdef WITH_OCL
size_t _Z13get_global_idj(unsigned d) { (void)d; return 0; }
void decompress(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen, uint64_t numChunks, const uint64_t *map, int *rets);
#endif
/* C20: the number of bits spent on each block, against what the tracked references allow */
static void costs(const uint8_t *out, size_t olen, unsigned n, unsigned *cost) {
  static const unsigned half[5] = {32, 24, 24, 16, 9}; struct rbits b = {out, (uint64_t)olen * 8, 0, 0}; unsigned k = 0;
  for (;;) {
    uint64_t op = sx_conc(rget(&b, 5)); sx_assert(!b.trunc, "the stream has an end marker"); if (op == 30) break;
    if (op < 26) { unsigned w = op == 25 ? 8 : half[op / 5] + half[op % 5]; for (unsigned i = 0; i < w; i += 16) rget(&b, w - i < 16 ? w - i : 16); sx_assert(k < n, "not more blocks than the input"); cost[k++] = 5 + w; }
    else if (op == 28) { sx_assert(k < n, "not more blocks than the input"); cost[k++] = 5; }
    else if (op == 27) { unsigned c = (unsigned)sx_conc(rget(&b, 6)) + 1; sx_assert(k + c <= n, "not more blocks than the input"); cost[k++] = 11; while (--c) cost[k++] = 0; }
    else { rget(&b, 3 + 8 * (unsigned)sx_conc(rget(&b, 3))); break; }
  }
  sx_assert(k == n, "every block is encoded");
}
static uint64_t piece(const uint8_t *in, unsigned size, unsigned i) { uint64_t v = 0; for (unsigned b = 0; b < size; b++) v = v << 8 | in[(size_t)i * size + b]; return v; }
static unsigned hsh(unsigned size, uint64_t v) { return (unsigned)((11400714785074694791ull * v) >> (64 - (size == 4 ? 11 : 10))); }  /* the optimised compressor's tables */
static int lastent[3][2048];
static unsigned found(int impl, const uint8_t *in, unsigned size, unsigned i, unsigned pre) {  /* the first 'pre' blocks are in the tables */   /* is piece i of this size certain to be found?  (branch-free) */
  unsigned per = 8 / size, k = i / per, ring = size == 2 ? 64 : 256, lo = (k > ring ? k - ring : 0) * per, hi = k * per, f = 0; uint64_t v = piece(in, size, i);
  for (unsigned e = lo; e < hi; e++) {
    unsigned s = piece(in, size, e) == v;
    if (impl) {
      if (e < pre * per && lastent[size / 4][hsh(size, piece(in, size, e))] != (int)e) continue;
      for (unsigned g = e < pre * per ? pre * per : e + 1; g < hi; g++) s &= (piece(in, size, g) == v) | (hsh(size, piece(in, size, g)) != hsh(size, v));
    }
    f |= s;
  }
  return f;
}
static void economy(int impl, const uint8_t *in, unsigned n, unsigned first, unsigned conc, const uint8_t *out, size_t olen) {   /* blocks first..n-1; the first 'conc' blocks are concrete */
  unsigned *cost = malloc(n * sizeof *cost + 1); costs(out, olen, n, cost);
  unsigned in_table = 0; memset(lastent, 0xff, sizeof lastent);
  for (unsigned k = first; k < n; k++) {
    if (impl) for (; in_table < k && in_table < conc; in_table++) for (unsigned c = 0; c < 3; c++) for (unsigned size = 2u << c, per = 8 / size, e = in_table * per; e < (in_table + 1) * per; e++) lastent[c][hsh(size, piece(in, size, e))] = (int)e;
    uint64_t v = piece(in, 8, k); unsigned f8 = found(impl, in, 8, k, in_table), need = 0;
    for (unsigned h = 0; h < 2; h++) { unsigned f4 = found(impl, in, 4, 2 * k + h, in_table), q = 32 - 8 * found(impl, in, 2, 4 * k + 2 * h, in_table) - 8 * found(impl, in, 2, 4 * k + 2 * h + 1, in_table); need += f4 * 9 + (1 - f4) * q; }
    need = 5 + f8 * 8 + (1 - f8) * need;
    unsigned same = 0, run = 0, zero = v == 0;   /* how many blocks before it are equal: every 64th starts a new repeat */
    for (unsigned e = 0; e < k; e++) { run = (piece(in, 8, e) == v) * (run + 1); } same = run != 0;
    need = same * (((run - 1) & 63) == 0) * 11 + (1 - same) * (zero * 5 + (1 - zero) * need);
    sx_observe(cost[k], "cost");
    sx_assert(cost[k] <= need, "the block takes the smallest encoding its tracked references allow");
  }
  free(cost); sx_reach("economy");
}
void sx_main(void) {
  int impl = sx_param("impl", 0); unsigned pre = sx_param("pre", 0), kind = sx_param("kind", 0), nsym = sx_param("nsym", 1), tail = sx_param("tail", 0), mis = sx_param("mis", 0), omis = sx_param("omis", mis);
  unsigned chk = sx_param("chk", 1); /* 1 round trip, 2 capacity, 4 twice/determinism, 8 sw decoder, 16 optsw decoder */
  unsigned free_ = sx_param("free", 8); /* symbolic bytes per symbolic block; the others repeat earlier content */
  size_t n = (size_t)(pre + nsym) * 8 + tail;
  uint8_t *in0 = malloc(n + mis ? n + mis : 1), *in = in0 + mis;
  for (unsigned i = 0; i < pre; i++) put64(in + 8 * i, block(kind, i));
  for (unsigned i = pre; i < pre + nsym; i++) {
    put64(in + 8 * i, block(kind, pre ? i % pre : i));
    unsigned rb = sx_param("recall", 0), base = sx_param("base", 0), parts = sx_param("parts", 1); /* the block is made of (parts of) earlier blocks, chosen by the solver */
    if (sx_param("letters", 0)) { unsigned l = sx_choose(sx_param("letters", 0), "letter"); uint64_t A = 0x1122334455667788ull, B = 0x99aabbccddeef011ull; put64(in + 8 * i, l == 0 ? A : l == 1 ? 0 : l == 2 ? B : l == 3 ? (A & 0xffffffff00000000ull) | (B & 0xffffffffull) : l == 4 ? A << 16 : mix(i)); }
    if (sx_param("fresh", 0)) put64(in + 8 * i, mix(0x10000 + i)); /* what is not recalled was never seen */
    unsigned pm = sx_param("pmask", 255); if (pm == 256) pm = sx_choose(16, "mask");
    if (rb) for (unsigned p = 0; p < parts; p++) { if (!(pm >> p & 1)) continue; uint16_t j; sx_sym(&j, 2, "earlier"); j &= (1u << rb) - 1; sx_assume(j < pre && base + j < pre); if (sx_param("fork", 0)) j = (uint16_t)sx_conc(j); memcpy(in + 8 * i + 8 / parts * p, in + 8 * (size_t)(base + j) + 8 / parts * p, 8 / parts); }
    if (free_) sx_sym(in + 8 * i + (sx_param("hi", 0) ? 0 : 8 - free_), free_, "block");
  }
  if (tail) sx_sym(in + 8 * (size_t)(pre + nsym), tail, "tail");
  uint8_t *copy = malloc(n ? n : 1); memcpy(copy, in, n);
  size_t bound = ((size_t)(pre + nsym) * 69 + (tail ? 8 + 8 * tail : 0) + 5 + 32 + 7) / 8; bound = (bound + 7) & ~(size_t)7;
  sx_leak_begin();
  uint8_t *out0 = malloc(bound + omis), *out = out0 + omis; size_t olen = bound;
  if (sx_param("fill", 0)) { uint8_t f; sx_sym(&f, 1, "fill"); sx_fill(f); } /* uninitialised memory holds any byte */
  int ret = comp(impl, in, n, out, &olen);
  sx_observe((uint32_t)ret, "ret"); sx_observe(olen, "olen");
  sx_assert(memcmp(in, copy, n) == 0, "input unchanged");
  if (impl && tail) {
    sx_assert(ret == -EINVAL, "optsw rejects lengths that are not a multiple of 8");
    sx_assert(olen == 0, "*olen == 0 after a failure");
    sx_reach("reject"); return;
  }
  sx_assert(ret == 0, "compression into a buffer of the worst-case size succeeds");
  sx_assert(olen % 8 == 0, "compressed size is a multiple of 8");
  sx_assert(olen <= bound, "compressed size stays within the worst case");
  sx_observe_n(out, olen, "out");
  sx_reach("compressed");
  if (chk & 1) {
    uint8_t *ref = malloc(n ? n : 1); struct refres r = ref_decode(out, olen, ref, n, impl == 0 || mis || omis);
    sx_assert(r.ok, "output is a valid 842 stream");
    sx_assert(r.n == n && memcmp(ref, copy, n) == 0, "output decodes to the input");
    sx_assert(tail ? r.shortd == 1 : r.shortd == 0, "short data only for a tail");
    sx_assert(r.endbit + 64 > olen * 8, "padding is less than 8 bytes");
    if (sx_param("plain", 0)) sx_assert(r.special == 0, "no zero or repeat operations");
    for (size_t b = r.endbit; b < olen * 8; b++) sx_assert(!(out[b / 8] >> (7 - b % 8) & 1), "padding is zero");
    free(ref);
  }
  if (chk & 64) economy(impl, in, pre + nsym, sx_param("allblocks", 0) ? 0 : pre, free_ ? pre : pre + nsym, out, olen);
  for (int d = 0; d < 2; d++) {
    if (!(chk & (8 << d)) || (d == 1 && tail)) continue;
    uint8_t *o2 = malloc(n ? n : 1); size_t ol = n; int rr = decomp(d, out, olen, o2, &ol);
    sx_assert(rr == 0, d ? "optsw842_decompress accepts the stream" : "sw842_decompress accepts the stream");
    sx_assert(ol == n && memcmp(o2, copy, n) == 0, d ? "optsw842_decompress restores the input" : "sw842_decompress restores the input");
    free(o2);
  }
#ifdef WITH_OCL
  if (chk & 32) {
    uint8_t *o2 = malloc(n ? n : 1); uint64_t ol = n, il = olen; int rr = 55; decompress((uint64_t *)out, 0, &il, (uint64_t *)o2, 0, &ol, 1, 0, &rr);
    sx_assert(rr == 0, "OpenCL kernel accepts the stream");
    sx_assert(ol == n && memcmp(o2, copy, n) == 0, "OpenCL kernel restores the input");
    free(o2); sx_reach("ocl");
  }
#endif
  if (chk & 2) {
    static const int delta[] = {0, -1, -7, -8, -9, 1, 7, -12, -16, -20, -24}; unsigned k = sx_choose(sizeof delta / sizeof *delta + 8, "cap");
    size_t cap = k >= 8 ? (delta[k - 8] < 0 && (size_t)-delta[k - 8] > olen ? 0 : olen + delta[k - 8]) : k;
    uint8_t *o2 = malloc(cap + omis + (cap + omis == 0)); size_t ol = cap; int rr = comp(impl, in, n, o2 + omis, &ol);
    sx_observe((uint32_t)rr, "ret2"); sx_observe(ol, "olen2");
    if (cap >= olen) { sx_assert(rr == 0 && ol == olen && memcmp(o2 + omis, out, olen) == 0, "same result whenever the output fits"); sx_reach("fits"); }
    else { sx_assert(rr == -ENOSPC, "-ENOSPC whenever the output does not fit"); sx_assert(ol == 0, "*olen == 0 after a failure"); sx_reach("nospace"); }
    free(o2);
  }
  if (chk & 4) {
    sx_fill(0x00);
    uint8_t *o2 = malloc(bound + omis); memset(o2, 0xff, bound + omis); size_t ol = bound; int rr = comp(impl, in, n, o2 + omis, &ol);
    sx_assert(rr == 0 && ol == olen && memcmp(o2 + omis, out, olen) == 0, "second call gives the same bytes");
    free(o2);
  }
  free(out0);
  sx_leak_check();
}
