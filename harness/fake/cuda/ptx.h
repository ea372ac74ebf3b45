/* Included before the CUDA kernel: language extensions, and the operations ptx.py translates PTX to. */
#pragma once
#define __global__
#define __device__
#define __host__
#define __constant__
#define __shared__ static
#define __forceinline__ inline
#define __restrict__
#include <stdint.h>
#include <type_traits>
struct cu_dim3 { unsigned x, y, z; };
extern "C" cu_dim3 blockIdx, blockDim, threadIdx, gridDim;
static inline uint32_t ptx_prmt(uint32_t a, uint32_t b, uint32_t c) {
  uint64_t v = (uint64_t)b << 32 | a; uint32_t r = 0;
  for (int i = 0; i < 4; i++) { unsigned s = (c >> (4 * i)) & 15; uint8_t x = (uint8_t)(v >> (8 * (s & 7))); if (s & 8) x = x & 0x80 ? 0xff : 0; r |= (uint32_t)x << (8 * i); }
  return r;
}
template <class T> static inline T ptx_shl(T v, uint32_t n) { return n >= 8 * sizeof(T) ? 0 : (T)(v << n); }
template <class T> static inline T ptx_shr(T v, uint32_t n) { return n >= 8 * sizeof(T) ? (v < 0 ? (T)-1 : (T)0) : (T)(v >> n); }
template <class T> static inline T ptx_ld(uint64_t a) { return *(const T *)a; }
template <class T> static inline void ptx_st(uint64_t a, T v) { *(T *)a = v; }
