// Stand-in for the Xilinx stream: a FIFO; reading an empty one would block for ever.
#ifndef FAKE_HLS_STREAM_H
#define FAKE_HLS_STREAM_H
extern "C" void sx_fail(const char *);
namespace hls {
template <class T> class stream {
  T q[64]; unsigned r = 0, w = 0;
public:
  stream() {}
  explicit stream(const char *) {}
  stream(const stream &) = delete; stream &operator=(const stream &) = delete;
  bool empty() const { return r == w; }
  bool full() const { return false; }
  unsigned size() const { return w - r; }
  T read() { if (r == w) sx_fail("read from an empty stream (blocks for ever)"); return q[r++]; }
  void read(T &t) { t = read(); }
  bool read_nb(T &t) { if (r == w) return false; t = q[r++]; return true; }
  void write(const T &t) { if (w == 64) sx_fail("more tokens than the input can hold"); q[w++] = t; }
  bool write_nb(const T &t) { write(t); return true; }
  void operator>>(T &t) { t = read(); }
  void operator<<(const T &t) { write(t); }
};
}
#endif
