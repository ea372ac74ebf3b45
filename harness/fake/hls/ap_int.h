// Stand-in for the Xilinx arbitrary precision integer (unsigned only): as much of its documented interface as HLS code
// usually needs.  W bits in 64-bit limbs, little-endian; every operation reduces modulo 2^W.
#ifndef FAKE_AP_INT_H
#define FAKE_AP_INT_H
#include <stdint.h>
#include <stdio.h>
extern "C" void sx_fail(const char *);
template <int W> struct ap_uint;
template <int W> struct ap_range {
  ap_uint<W> &x; int hi, lo;
  ap_range(ap_uint<W> &x_, int h, int l) : x(x_), hi(h), lo(l) { if (l < 0 || h >= W || h < l - 1) sx_fail("bit range outside the value"); }
  unsigned len() const { return (unsigned)(hi - lo + 1); }
  uint64_t limb(unsigned i) const { // bits 64i.. of the range
    unsigned n = len(); if (n <= 64 * i) return 0; unsigned k = n - 64 * i; uint64_t v = x.bits64(lo + 64 * i); return k < 64 ? v & ((1ull << k) - 1) : v; }
  template <class F> void set(F f) { for (unsigned i = 0; 64 * i < len(); i++) { unsigned k = len() - 64 * i; x.put(lo + 64 * i, k < 64 ? k : 64, f(i)); } }
  ap_range &operator=(unsigned long long v) { set([&](unsigned i) { return i ? 0ull : v; }); return *this; }
  ap_range &operator=(const ap_range &o) { ap_uint<W> t = o; set([&](unsigned i) { return t.limb(i); }); return *this; }
  template <int V> ap_range &operator=(const ap_range<V> &o) { ap_uint<V> t = o; set([&](unsigned i) { return t.limb(i); }); return *this; }
  template <int V> ap_range &operator=(const ap_uint<V> &o) { set([&](unsigned i) { return o.limb(i); }); return *this; }
  operator unsigned long long() const { return limb(0); }
  uint64_t to_uint64() const { return limb(0); }
  unsigned to_uint() const { return (unsigned)limb(0); }
  int to_int() const { return (int)limb(0); }
};
template <int W> struct ap_uint {
  enum { L = (W + 63) / 64, width = W };
  uint64_t d[L];
  void fix() { if (W % 64) d[L - 1] &= (1ull << (W % 64)) - 1; }
  uint64_t limb(unsigned i) const { return i < (unsigned)L ? d[i] : 0; }
  uint64_t bits64(unsigned p) const { unsigned i = p / 64, s = p % 64; uint64_t v = limb(i) >> s; if (s) v |= limb(i + 1) << (64 - s); return v; }
  void put(unsigned p, unsigned n, uint64_t v) { // n <= 64 bits at position p
    uint64_t m = n < 64 ? (1ull << n) - 1 : ~0ull; v &= m; unsigned i = p / 64, s = p % 64; d[i] = (d[i] & ~(m << s)) | v << s; if (s && n > 64 - s) { d[i + 1] = (d[i + 1] & ~(m >> (64 - s))) | v >> (64 - s); } }
  ap_uint() { for (int i = 0; i < L; i++) d[i] = 0; }
  ap_uint(const ap_uint &) = default;
  ap_uint(unsigned long long v) { for (int i = 0; i < L; i++) d[i] = 0; d[0] = v; fix(); }
  ap_uint(unsigned long v) : ap_uint((unsigned long long)v) {}
  ap_uint(unsigned v) : ap_uint((unsigned long long)v) {}
  ap_uint(bool v) : ap_uint((unsigned long long)v) {}
  ap_uint(unsigned char v) : ap_uint((unsigned long long)v) {}
  ap_uint(unsigned short v) : ap_uint((unsigned long long)v) {}
  ap_uint(int v) : ap_uint((long long)v) {}
  ap_uint(long v) : ap_uint((long long)v) {}
  ap_uint(long long v) { d[0] = (uint64_t)v; for (int i = 1; i < L; i++) d[i] = v < 0 ? ~0ull : 0; fix(); }
  template <int V> ap_uint(const ap_uint<V> &o) { for (int i = 0; i < L; i++) d[i] = o.limb(i); fix(); }
  template <int V> ap_uint(const ap_range<V> &o) { for (int i = 0; i < L; i++) d[i] = o.limb(i); fix(); }
  ap_uint &operator=(const ap_uint &) = default;
  ap_range<W> operator()(int hi, int lo) { return ap_range<W>(*this, hi, lo); }
  const ap_range<W> operator()(int hi, int lo) const { return ap_range<W>(const_cast<ap_uint &>(*this), hi, lo); }
  ap_range<W> range(int hi, int lo) { return ap_range<W>(*this, hi, lo); }
  const ap_range<W> range(int hi, int lo) const { return ap_range<W>(const_cast<ap_uint &>(*this), hi, lo); }
  ap_range<W> operator[](int i) { return ap_range<W>(*this, i, i); }
  bool operator[](int i) const { return bits64(i) & 1; }
  bool test(int i) const { return bits64(i) & 1; }
  void set_bit(int i, bool v) { put(i, 1, v); }
  int length() const { return W; }
  operator unsigned long long() const { return d[0]; }
  uint64_t to_uint64() const { return d[0]; }
  unsigned to_uint() const { return (unsigned)d[0]; }
  int to_int() const { return (int)d[0]; }
  unsigned char to_uchar() const { return (unsigned char)d[0]; }
  ap_uint &operator<<=(unsigned long long n) { ap_uint r; if (n < W) for (int i = L - 1; i >= 0; i--) { int k = i - (int)(n / 64); unsigned s = n % 64; if (k >= 0) { r.d[i] = d[k] << s; if (s && k > 0) r.d[i] |= d[k - 1] >> (64 - s); } } r.fix(); return *this = r; }
  ap_uint &operator>>=(unsigned long long n) { ap_uint r; if (n < W) for (int i = 0; i < L; i++) r.d[i] = 64 * i + n < W ? bits64((unsigned)(64 * i + n)) : 0; return *this = r; }
  template <int V> ap_uint &operator<<=(const ap_uint<V> &n) { return *this <<= (unsigned long long)n; }
  template <int V> ap_uint &operator>>=(const ap_uint<V> &n) { return *this >>= (unsigned long long)n; }
  ap_uint &operator+=(const ap_uint &o) { unsigned c = 0; for (int i = 0; i < L; i++) { unsigned __int128 t = (unsigned __int128)d[i] + o.d[i] + c; d[i] = (uint64_t)t; c = (unsigned)(t >> 64); } fix(); return *this; }
  ap_uint &operator-=(const ap_uint &o) { unsigned c = 0; for (int i = 0; i < L; i++) { unsigned __int128 t = (unsigned __int128)d[i] - o.d[i] - c; d[i] = (uint64_t)t; c = (unsigned)(t >> 64) & 1; } fix(); return *this; }
  ap_uint &operator&=(const ap_uint &o) { for (int i = 0; i < L; i++) d[i] &= o.d[i]; return *this; }
  ap_uint &operator|=(const ap_uint &o) { for (int i = 0; i < L; i++) d[i] |= o.d[i]; return *this; }
  ap_uint &operator^=(const ap_uint &o) { for (int i = 0; i < L; i++) d[i] ^= o.d[i]; return *this; }
  ap_uint operator~() const { ap_uint r; for (int i = 0; i < L; i++) r.d[i] = ~d[i]; r.fix(); return r; }
  ap_uint &operator++() { return *this += ap_uint(1u); }
  ap_uint &operator--() { return *this -= ap_uint(1u); }
  ap_uint operator++(int) { ap_uint t = *this; ++*this; return t; }
  ap_uint operator--(int) { ap_uint t = *this; --*this; return t; }
};
// Wide operands keep their width (narrow ones convert to built-in integers, whose arithmetic is wide enough)
#define AP_WIDE(W) typename ap_if<((W) > 64), ap_uint<W>>::type
template <bool B, class T> struct ap_if {};
template <class T> struct ap_if<true, T> { typedef T type; };
template <int W> AP_WIDE(W) operator<<(const ap_uint<W> &a, int n) { ap_uint<W> r = a; r <<= (unsigned long long)n; return r; }
template <int W> AP_WIDE(W) operator>>(const ap_uint<W> &a, int n) { ap_uint<W> r = a; r >>= (unsigned long long)n; return r; }
template <int W> AP_WIDE(W) operator<<(const ap_uint<W> &a, unsigned n) { ap_uint<W> r = a; r <<= (unsigned long long)n; return r; }
template <int W> AP_WIDE(W) operator>>(const ap_uint<W> &a, unsigned n) { ap_uint<W> r = a; r >>= (unsigned long long)n; return r; }
template <int W> AP_WIDE(W) operator<<(const ap_uint<W> &a, unsigned long long n) { ap_uint<W> r = a; r <<= n; return r; }
template <int W> AP_WIDE(W) operator>>(const ap_uint<W> &a, unsigned long long n) { ap_uint<W> r = a; r >>= n; return r; }
template <int W, int V> AP_WIDE(W) operator<<(const ap_uint<W> &a, const ap_uint<V> &n) { ap_uint<W> r = a; r <<= (unsigned long long)n; return r; }
template <int W, int V> AP_WIDE(W) operator>>(const ap_uint<W> &a, const ap_uint<V> &n) { ap_uint<W> r = a; r >>= (unsigned long long)n; return r; }
template <int W> AP_WIDE(W) operator|(const ap_uint<W> &a, const ap_uint<W> &b) { ap_uint<W> r = a; r |= b; return r; }
template <int W> AP_WIDE(W) operator&(const ap_uint<W> &a, const ap_uint<W> &b) { ap_uint<W> r = a; r &= b; return r; }
template <int W> AP_WIDE(W) operator^(const ap_uint<W> &a, const ap_uint<W> &b) { ap_uint<W> r = a; r ^= b; return r; }
template <int A, int B> ap_uint<A + B> operator,(const ap_uint<A> &a, const ap_uint<B> &b) { ap_uint<A + B> r = b, t = a; t <<= (unsigned long long)B; r |= t; return r; }
template <int A, int B> ap_uint<A + B> concat(const ap_uint<A> &a, const ap_uint<B> &b) { return (a, b); }
#endif
