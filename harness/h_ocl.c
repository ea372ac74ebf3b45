/* OpenCL decompression kernel, compiled for the host with get_global_id stubbed.
   mode 0: one chunk of arbitrary bytes against the reference (no CRC check in the kernel).
   mode 1: several chunks: placement, shuffle map, optional arrays, work items beyond numChunks.
   mode 2 (MAYBE): marker / verbatim / skip chunks. */
#include "sx.h"
#define REF_NOCRC
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/common.h>
static size_t gid; size_t _Z13get_global_idj(unsigned d) { (void)d; return gid; }
void decompress(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen, uint64_t numChunks, const uint64_t *map, int *rets);
#ifndef CHUNK
#define CHUNK 64
#define STRIDE 96
#endif
static void oracle(struct refres r, int ret, uint64_t olen, const uint8_t *out, const uint8_t *ref) {
  sx_assert((ret == 0) == r.ok, "accepted iff the reference accepts (CRC aside)");
  if (ret == 0) { sx_assert(olen == r.n, "length"); sx_assert(memcmp(out, ref, r.n) == 0, "decompressed bytes equal the reference bytes"); sx_reach("accept"); }
  else { sx_assert(ret < 0 && olen == 0, "failure: negative errno and length 0"); sx_assert(ret == -EINVAL || ret == -ENOSPC, "-EINVAL or -ENOSPC");
    if (!(r.cause & RC_SPACE)) sx_assert(ret == -EINVAL, "-ENOSPC only when the output is exhausted"); if (r.cause == RC_SPACE) sx_assert(ret == -ENOSPC, "output exhausted is -ENOSPC"); sx_reach("reject"); }
}
void sx_main(void) {
  unsigned mode = sx_param("mode", 0), pre = sx_param("pre", 0), tail = sx_param("tail", 16), capx = sx_param("capx", 16), n = sx_param("n", 3);
  if (mode == 0) {
    size_t ilen = (((size_t)pre * 69 + 7) / 8 + tail + 7) & ~(size_t)7, cap = 8 * (size_t)pre + capx; uint8_t *in = malloc(ilen + !ilen), *out = malloc(cap + !cap), *ref = malloc(cap + !cap);
    struct wbits w = {in, ilen, 0}; for (unsigned i = 0; i < pre; i++) { wput(&w, 0, 5); wput(&w, 0x9e3779b97f4a7c15ull * (i + 1), 64); }
    if (sx_param("op0", 0)) wput(&w, sx_param("op0", 0), 5);
    unsigned rem = (8 - (w.pos & 7)) & 7; if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
    size_t tl = ilen - w.pos / 8; if (tl) sx_sym(in + w.pos / 8, tl, "tail");
    if (sx_param("nop", 0)) ref_oplimit = pre + sx_param("nop", 0);
    struct refres r = ref_decode(in, ilen, ref, cap, 0); if (sx_param("valid", 0)) sx_assume(r.ok);
    uint64_t il = ilen, ol = cap; int ret = 55; gid = 0; decompress((uint64_t *)in, 0, &il, (uint64_t *)out, 0, &ol, 1, 0, &ret);
    sx_observe((uint32_t)ret, "ret"); sx_observe(ol, "olen");
    sx_assert(il == ilen, "input length array unchanged");
    oracle(r, ret, ol, out, ref); return;
  }
  /* chunk c is symbolic, the others are valid concrete streams */
  unsigned c = sx_param("c", 1), ioff = sx_param("ioff", 0), ooff = sx_param("ooff", 0), useil = sx_param("useil", 1), useol = sx_param("useol", 1), user = sx_param("user", 1), usemap = sx_param("usemap", 1), sl = sx_param("tail", 16), cap = sx_param("cap", CHUNK);
  size_t is = ioff + (size_t)STRIDE * n, os = ooff + (size_t)CHUNK * n; uint8_t *in = calloc(1, is), *out = malloc(os), *want = malloc(os); uint64_t il[8], ol[8], wl[8], map[8]; int rets[8], wr[8];
  memset(out, 0x77, os); memset(want, 0x77, os);
  for (unsigned i = 0; i < 8; i++) { il[i] = 777; ol[i] = wl[i] = 777; rets[i] = wr[i] = 777; }
  for (unsigned i = 0; i < n; i++) {
    uint8_t *p = in + ioff + (size_t)STRIDE * i, *q = want + ooff + (size_t)CHUNK * i, *s = p; size_t slen = 32; unsigned kind = 3;
#ifdef MAYBE
    kind = i == c ? sx_choose(5, "kind") : i % 4; if (i == c && kind == 3) slen = 16 + 8 * sx_choose(3, "len"); uint64_t sz = kind == 3 ? slen : 0;
    if (kind == 4) { sx_sym(&sz, 8, "size"); sx_assume(sz > CHUNK); }
    if (kind == 3) s = p + CHUNK - slen;
    if (kind >= 2) { memcpy(p, LIB842_COMPRESSED_CHUNK_MARKER, 16); memcpy(p + 16, &sz, 8); }
    else { for (unsigned k = 0; k < CHUNK; k++) p[k] = (uint8_t)(k + 3 * i); if (i == c) { sx_sym(p, 24, "plain"); sx_assume(memcmp(p, LIB842_COMPRESSED_CHUNK_MARKER, 16) != 0); if (kind == 1) memcpy(p, LIB842_COMPRESSED_CHUNK_MARKER, 8 * sx_choose(2, "half")), sx_assume(memcmp(p, LIB842_COMPRESSED_CHUNK_MARKER, 16) != 0); } }
#endif
    il[i] = slen; ol[i] = cap; wl[i] = cap;
    if (kind < 2) { memcpy(q, p, CHUNK); wl[i] = CHUNK; wr[i] = 0; continue; }
    if (kind == 4) { wl[i] = 0; wr[i] = -EINVAL; sx_reach("bad size"); continue; }
    if (kind == 2) { wl[i] = CHUNK; wr[i] = 0; continue; }
    if (i == c) { sx_sym(s, slen < sl ? slen : sl, "stream"); } 
    else { struct wbits w = {s, slen, 0}; wput(&w, 0, 5); wput(&w, 0x0123456789abcdefull * (i + 1), 64); wput(&w, 25, 5); wput(&w, 0, 8); wput(&w, 28, 5); wput(&w, 30, 5); wput(&w, 0, 32); }
    if (i == c && sx_param("nop", 0)) ref_oplimit = sx_param("nop", 0); else ref_oplimit = 0;
    uint8_t ref[CHUNK + 8]; struct refres r = ref_decode(s, slen, ref, cap < CHUNK ? cap : CHUNK, 0);
    if (!useol || !useil) sx_assume(r.ok);
    if (r.ok) { memcpy(q, ref, r.n); wl[i] = r.n; wr[i] = 0; }
    else { wl[i] = 0; wr[i] = r.cause & RC_SPACE ? -ENOSPC : -EINVAL; if ((r.cause & RC_SPACE) && r.cause != RC_SPACE) wr[i] = 1; memcpy(q, ref, 0); }
  }
  for (unsigned i = 0; i < n; i++) map[i] = i;
  if (usemap) { unsigned a = sx_choose(n, "swap"), b = sx_choose(n, "swap2"); uint64_t t = map[a]; map[a] = map[b]; map[b] = t; }
  for (gid = 0; gid < n + 2; gid++) decompress((uint64_t *)in, ioff, useil ? il : 0, (uint64_t *)out, ooff, useol ? ol : 0, n, usemap ? map : 0, user ? rets : 0);
  for (unsigned i = 0; i < n; i++) {
    if (user) { sx_observe((uint32_t)rets[i], "ret"); sx_assert(wr[i] == 1 ? rets[i] == -EINVAL || rets[i] == -ENOSPC : rets[i] == wr[i], "result of each chunk"); }
    if (useol) { sx_observe(ol[i], "olen"); sx_assert(ol[i] == wl[i], "length of each chunk"); }
    if (wr[i] == 0) sx_assert(memcmp(out + ooff + CHUNK * i, want + ooff + CHUNK * i, wl[i]) == 0, "content of each chunk");
    for (size_t k = wr[i] == 0 ? (wl[i] + 7) & ~7ull : cap; k < CHUNK; k++) sx_assert(out[ooff + CHUNK * i + k] == want[ooff + CHUNK * i + k], "nothing written beyond a chunk's own data");
  }
  for (size_t k = 0; k < ooff; k++) sx_assert(out[k] == 0x77, "nothing written before the output offset");
  for (unsigned i = n; i < 8; i++) { sx_assert(rets[i] == 777 && ol[i] == 777, "no result written for non-existing chunks"); }
  sx_reach("done");
}
