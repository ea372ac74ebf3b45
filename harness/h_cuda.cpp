/* The CUDA decompression kernel (src/cuda/842_decompress.cu), its inline PTX translated to C++ (ptx.py).
   Chunk c of the launch is an arbitrary valid stream, the others are fixed valid streams; one thread per chunk. */
extern "C" {
#include "sx.h"
}
#define REF_NOCRC
#include "ref842.h"
#include <stdlib.h>
#define CHUNK 1024
#define STRIDE 2048
struct cu_dim3 { unsigned x, y, z; };
extern "C" { cu_dim3 blockIdx, blockDim, threadIdx, gridDim; }
void cuda842_decompress(const uint64_t *in, uint64_t *out);
extern "C" void sx_main(void) {
  unsigned n = sx_param("n", 1), c = sx_param("c", 0), bd = sx_param("bd", 1), pre = sx_param("pre", 0), nop = sx_param("nop", 1), preop = sx_param("preop", 0), fill = sx_param("fill", 0);
  uint8_t *in = (uint8_t *)malloc((size_t)STRIDE * n), *out = (uint8_t *)malloc((size_t)CHUNK * n), *want = (uint8_t *)malloc((size_t)CHUNK * n);
  memset(in, 0xff, (size_t)STRIDE * n); memset(out, 0x77, (size_t)CHUNK * n); memset(want, 0x77, (size_t)CHUNK * n);
  for (unsigned i = 0; i < n; i++) {
    uint8_t *s = in + (size_t)STRIDE * i, *ref = want + (size_t)CHUNK * i; struct wbits w = {s, STRIDE, 0}; size_t sl;
    if (i != c) { wput(&w, 0, 5); wput(&w, 0x0123456789abcdefull * (i + 1), 64); wput(&w, 25, 5); wput(&w, 0, 8); wput(&w, 28, 5); wput(&w, 1, 5); wput(&w, 0x9abcdef0u + i, 32); wput(&w, 0x1234, 16); wput(&w, 5, 8); wput(&w, 30, 5); wput(&w, 0, 32); ref_oplimit = 0; sl = (w.pos + 7) / 8; }
    else {
      for (unsigned k = 0; k < pre; k++) { if (k && preop) { wput(&w, preop, 5); if (preop == 25) wput(&w, 0, 8); continue; } wput(&w, 0, 5); wput(&w, 0x9e3779b97f4a7c15ull * (k + 1), 64); }
      unsigned rem = (8 - (w.pos & 7)) & 7; if (rem) { uint8_t b; sx_sym(&b, 1, "bits"); wput(&w, b, rem); }
      size_t at = w.pos / 8, tl = 9 * nop + 5; if (at + tl > STRIDE) tl = STRIDE - at; if (tl) sx_sym(s + at, tl, "tail"); sl = at + tl; ref_oplimit = pre + nop;
    }
    uint8_t tmp[CHUNK]; struct refres r = ref_decode(s, sl, tmp, CHUNK, 0); sx_assume(r.ok); memcpy(ref, tmp, r.n); if (i == c) { sx_reach("accept"); if (fill && r.n == CHUNK) sx_reach("full chunk"); }
  }
  blockDim.x = bd; blockDim.y = blockDim.z = gridDim.y = gridDim.z = 1; gridDim.x = n / bd; blockIdx.y = blockIdx.z = threadIdx.y = threadIdx.z = 0;
  for (unsigned b = 0; b < n / bd; b++) for (unsigned t = 0; t < bd; t++) { blockIdx.x = b; threadIdx.x = t; cuda842_decompress((uint64_t *)in, (uint64_t *)out); }
  for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < CHUNK; k += 8) { uint64_t g, e; memcpy(&g, out + (size_t)CHUNK * i + k, 8); memcpy(&e, want + (size_t)CHUNK * i + k, 8); if (i == c && k / 8 <= pre + 3) sx_observe(g, "word"); sx_assert(g == e, "every chunk holds exactly the bytes of its stream, and nothing else is written"); }
  sx_reach("done");
}
