/* Stored checksum.  mode 0: literal blocks with symbolic content followed by a symbolic CRC field: accepted iff it is the CRC of the content.
   mode 1: valid stream whose literal or CRC bits are hit by a symbolic burst of up to 32 bits at a chosen place: rejected. */
#include "sx.h"
#include "ref842.h"
#include <stdlib.h>
#include <errno.h>
#include <lib842/sw.h>
void sx_main(void) {
  int impl = sx_param("impl", 0), mode = sx_param("mode", 0); unsigned n = sx_param("n", 1), sh = sx_param("short", 0), rep = sx_param("rep", 0), pre = sx_param("pre", 0), span = sx_param("span", 32);
  size_t nb = 8 * (n + pre + rep) + sh; uint8_t *d = malloc(nb + !nb); size_t k = 0;
  for (unsigned i = 0; i < pre; i++) for (int j = 0; j < 8; j++) d[k++] = (uint8_t)((0x9e3779b97f4a7c15ull * (i + 1)) >> (8 * j));
  if (n) sx_sym(d + k, 8 * n, "data"); k += 8 * n;
  for (unsigned i = 0; i < rep; i++, k += 8) memcpy(d + k, d + k - 8, 8);
  if (sh) sx_sym(d + k, sh, "short");
  size_t bits = (size_t)(n + pre) * 69 + (rep ? 11 : 0) + (sh ? 8 + 8 * sh : 0) + 5 + 32, ilen = (bits + 63) / 64 * 8; uint8_t *in = calloc(1, ilen), *out = malloc(nb + !nb);
  struct wbits w = {in, ilen, 0};
  size_t place[128], np = 0;   /* bit positions where a burst may start */
  for (unsigned i = 0; i < n + pre; i++) { wput(&w, 0, 5); for (int j = 0; j < 8; j++) { if (j <= 8 - (int)(span + 7) / 8 && np < 100 && i >= pre) place[np++] = w.pos; wput(&w, d[8 * i + j], 8); } }
  if (rep) { wput(&w, 27, 5); wput(&w, rep - 1, 6); }
  if (sh) { wput(&w, 29, 5); wput(&w, sh, 3); for (unsigned j = 0; j < sh; j++) { if (j + (span + 7) / 8 <= sh) place[np++] = w.pos; wput(&w, d[nb - sh + j], 8); } }
  wput(&w, 30, 5); place[np++] = w.pos;
  uint32_t good = ref_crc(d, nb), stored = good;
  if (mode == 0) { uint8_t c[4]; sx_sym(c, 4, "crc"); stored = (uint32_t)c[0] << 24 | c[1] << 16 | c[2] << 8 | c[3]; }
  wput(&w, stored, 32);
  if (mode == 1) {
    uint8_t b[4]; sx_sym(b, 4, "burst"); uint32_t m = (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; if (span < 32) m &= ~0u << (32 - span); sx_assume(m != 0);
    size_t p = place[sx_choose(np, "place")];
    for (unsigned i = 0; i < 32; i++, p++) { uint8_t bit = m >> (31 - i) & 1; if (i < span) in[p / 8] ^= (uint8_t)(bit << (7 - p % 8)); }
  }
  size_t olen = nb; int ret = impl ? optsw842_decompress(in, ilen, out, &olen) : sw842_decompress(in, ilen, out, &olen);
  sx_observe((uint32_t)ret, "ret");
  if (mode == 1) { sx_assert(ret == -EINVAL && olen == 0, "a burst of up to 32 corrupted bits in data or CRC is detected"); sx_reach("burst"); return; }
  sx_assert((ret == 0) == (stored == good), "accepted iff the stored CRC is the CRC-32 of the decompressed data");
  if (ret == 0) { sx_assert(olen == nb && memcmp(out, d, nb) == 0, "content restored"); sx_reach("accept"); }
  else { sx_assert(ret == -EINVAL && olen == 0, "CRC mismatch is -EINVAL with *olen == 0"); sx_reach("mismatch"); }
}
