/* Stand-ins for the standard streams used by the code under test: string streams are plain strings, console output is dropped, and
   files are one in-memory file whose content and failures the harness controls (sxfs).  Included before the code under test, after
   every standard header, so only the code under test and the harness see the replaced names. */
#ifndef IOSIM_H
#define IOSIM_H
#ifdef WITH_CL
#include <CL/cl2.hpp>
#endif
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <iterator>
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>
#include <string>
#include <limits>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <cassert>
struct sxfs_file { bool exists, openFails; int writesLeft; /* -1: no limit */ size_t n; uint8_t d[1024]; int opens, nwrites; };
extern sxfs_file sxfs_in, sxfs_out;          /* what is read; what is written (the same file, or two for cl2c) */
sxfs_file *sxfs_find(const char *path, bool write);
extern "C" void sx_assert_(int c, const char *msg);
namespace std {
struct sx_ios_base {
  typedef int iostate; typedef int openmode; typedef int seekdir;
  static constexpr int goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr int in = 8, out = 16, binary = 4, trunc = 32, app = 1, ate = 2, beg = 0, cur = 1, end = 2;
  struct failure : exception { const char *what() const noexcept override { return "iostream error"; } };
  int st = 0, ex = 0;
  void clear(int s = 0) { st = s; if (st & ex) throw failure(); }
  void setstate(int s) { clear(st | s); }
  void exceptions(int m) { ex = m; clear(st); }
  int exceptions() const { return ex; } int rdstate() const { return st; }
  bool good() const { return !st; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
  bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
};
struct sx_ostream : sx_ios_base {
  string s; bool drop = false; sxfs_file *f = nullptr;
  void put_(const char *p, size_t n) {
    if (drop) return; if (!f) { s.append(p, n); return; }
    if (st) return; f->nwrites++;
    if (f->writesLeft == 0) { setstate(badbit); return; } if (f->writesLeft > 0) f->writesLeft--;
    if (n > sizeof f->d - f->n) { sx_assert_(0, "file within the modelled size"); return; } if (n) memcpy(f->d + f->n, p, n); f->n += n;
  }
  sx_ostream &write(const char *p, streamsize n) { put_(p, (size_t)n); return *this; }
  sx_ostream &put(char c) { put_(&c, 1); return *this; } sx_ostream &flush() { return *this; }
  sx_ostream &num(unsigned long long v, bool neg) { char b[24]; int i = 24; do b[--i] = (char)('0' + v % 10); while (v /= 10); if (neg) b[--i] = '-'; put_(b + i, 24 - i); return *this; }
  sx_ostream &operator<<(const char *p) { put_(p, strlen(p)); return *this; } sx_ostream &operator<<(const string &p) { put_(p.data(), p.size()); return *this; }
  sx_ostream &operator<<(char c) { put_(&c, 1); return *this; } sx_ostream &operator<<(unsigned char c) { return *this << (char)c; } sx_ostream &operator<<(signed char c) { return *this << (char)c; } sx_ostream &operator<<(bool v) { return num(v, false); }
  sx_ostream &operator<<(int v) { return num(v < 0 ? -(unsigned long long)v : v, v < 0); } sx_ostream &operator<<(long v) { return num(v < 0 ? -(unsigned long long)v : v, v < 0); } sx_ostream &operator<<(long long v) { return num(v < 0 ? -(unsigned long long)v : v, v < 0); }
  sx_ostream &operator<<(unsigned v) { return num(v, false); } sx_ostream &operator<<(unsigned long v) { return num(v, false); } sx_ostream &operator<<(unsigned long long v) { return num(v, false); } sx_ostream &operator<<(unsigned short v) { return num(v, false); } sx_ostream &operator<<(short v) { return *this << (int)v; }
  sx_ostream &operator<<(double v) { sx_assert_(v == (double)(long long)v && v > -1e6 && v < 1e6, "doubles are written only where they are small integers"); return *this << (long long)v; }
  sx_ostream &operator<<(const void *) { return *this; }
  sx_ostream &operator<<(sx_ostream &(*m)(sx_ostream &)) { return m(*this); }
};
inline sx_ostream &sx_endl(sx_ostream &o) { return o.put('\n'); }
inline sx_ostream &sx_flush(sx_ostream &o) { return o; }
struct sx_ostringstream : sx_ostream { sx_ostringstream() {} explicit sx_ostringstream(const string &x) { s = x; } string str() const { return s; } void str(const string &x) { s = x; } };
template <class T, class C = char> struct sx_ostream_iterator {
  typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  sx_ostream *o; const char *d; sx_ostream_iterator(sx_ostream &x, const char *y = nullptr) : o(&x), d(y) {}
  template <class U> sx_ostream_iterator &operator=(const U &v) { if constexpr (is_floating_point<T>::value && is_integral<U>::value) *o << (long long)v; else *o << static_cast<const T &>(v); if (d) *o << d; return *this; } sx_ostream_iterator &operator*() { return *this; } sx_ostream_iterator &operator++() { return *this; } sx_ostream_iterator &operator++(int) { return *this; }
};
struct sx_ofstream : sx_ostream {
  sx_ofstream() { drop = true; } explicit sx_ofstream(const string &p, int m = out) { open(p.c_str(), m); } explicit sx_ofstream(const char *p, int m = out) { open(p, m); }
  void open(const char *p, int = out) { drop = false; f = sxfs_find(p, true); f->opens++; if (f->openFails) { f = nullptr; drop = true; setstate(failbit); return; } f->exists = true; f->n = 0; }
  bool is_open() const { return f != nullptr; } void close() { if (!f) setstate(failbit); f = nullptr; drop = true; } streamoff tellp() { return f ? (streamoff)f->n : -1; }
};
struct sx_istream : sx_ios_base {
  sxfs_file *f = nullptr; size_t pos = 0; streamsize gc = 0;
  streamsize gcount() const { return gc; }
  sx_istream &read(char *p, streamsize n_) {
    size_t n = (size_t)n_; gc = 0; if (!f || st) { setstate(failbit); return *this; }
    size_t a = f->n - pos; if (n_ < 0) { sx_assert_(0, "negative read"); return *this; } if (n > a) { if (a) memcpy(p, f->d + pos, a); pos += a; gc = (streamsize)a; setstate(eofbit | failbit); return *this; }
    if (n) memcpy(p, f->d + pos, n); pos += n; gc = n_; return *this;
  }
  int get() { if (!f || st) { setstate(failbit); return -1; } if (pos >= f->n) { setstate(eofbit | failbit); return -1; } return f->d[pos++]; }
  sx_istream &get(char &c) { int v = get(); if (v >= 0) c = (char)v; return *this; }
  int peek() { if (!f || st) return -1; if (pos >= f->n) { setstate(eofbit); return -1; } return f->d[pos]; }
  streamoff tellg() { return f && !fail() ? (streamoff)pos : -1; }
  sx_istream &seekg(streamoff o, int dir = beg) { clear(st & ~eofbit); if (f) { streamoff b = dir == beg ? 0 : dir == cur ? (streamoff)pos : (streamoff)f->n; if (b + o < 0 || b + o > (streamoff)f->n) setstate(failbit); else pos = (size_t)(b + o); } return *this; }
};
struct sx_ifstream : sx_istream {
  sx_ifstream() {} explicit sx_ifstream(const string &p, int m = in) { open(p.c_str(), m); } explicit sx_ifstream(const char *p, int m = in) { open(p, m); }
  void open(const char *p, int m = in) { f = sxfs_find(p, false); f->opens++; pos = 0; if (!f->exists || f->openFails) { f = nullptr; setstate(failbit); } else if (m & ate) pos = f->n; }
  bool is_open() const { return f != nullptr; } void close() { if (!f) setstate(failbit); f = nullptr; }
};
template <class C = char> struct sx_istreambuf_iterator {
  typedef input_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char *pointer; typedef char reference;
  sx_istream *i; sx_istreambuf_iterator() : i(nullptr) {} sx_istreambuf_iterator(sx_istream &x) : i(&x) { chk(); }
  void chk() { if (i && (!i->f || i->pos >= i->f->n)) i = nullptr; } char operator*() const { return (char)i->f->d[i->pos]; } sx_istreambuf_iterator &operator++() { i->pos++; chk(); return *this; } sx_istreambuf_iterator operator++(int) { auto o = *this; ++*this; return o; }
  bool operator==(const sx_istreambuf_iterator &o) const { return i == o.i; } bool operator!=(const sx_istreambuf_iterator &o) const { return i != o.i; }
};
extern sx_ostream sx_cout, sx_cerr;
}
#ifdef IOSIM_IMPL
namespace std { static sx_ostream mkDrop() { sx_ostream o; o.drop = true; return o; } sx_ostream sx_cout = mkDrop(), sx_cerr = mkDrop(); }
#endif
#define ios_base sx_ios_base
#define ostream sx_ostream
#define istream sx_istream
#define ifstream sx_ifstream
#define ofstream sx_ofstream
#define fstream sx_fstream_not_modelled
#define ostringstream sx_ostringstream
#define stringstream sx_ostringstream
#define ostream_iterator sx_ostream_iterator
#define istreambuf_iterator sx_istreambuf_iterator
#define endl sx_endl
#define flush sx_flush
#define cout sx_cout
#define cerr sx_cerr
#define clog sx_cerr
#endif
