/* The FPGA opcode tokenizer (src/hls/842_decomp.cpp) over stand-ins for the Xilinx types.
   Stream = 'pre' tokens of opcode 'preop' + 'nop' arbitrary operations + END, cut after 'words' 128-bit words. */
extern "C" {
#include "sx.h"
}
#include "ref842.h"
#define main hls_main
#include <hls/842_decomp.cpp>
#undef main
extern "C" void sx_fail(const char *m) { sx_assert(0, m); }
static unsigned plen(unsigned op) { /* parameter bits, from the format description */
  static const unsigned half[5] = {32, 24, 24, 16, 9};
  return op < 25 ? half[op / 5] + half[op % 5] : op == 25 ? 8 : op == 27 ? 6 : 0;
}
struct tok { unsigned op; uint64_t val; };
extern "C" void sx_main(void) {
  unsigned words = sx_param("words", 1), pre = sx_param("pre", 0), preop = sx_param("preop", 0), nop = sx_param("nop", 1), junk = sx_param("junk", 1), pre2 = sx_param("pre2", 0);
  static uint8_t buf[16 * 8 + 64]; static tok want[64]; unsigned nt = 0, end = words * 128, ended = 0; wbits b = {buf, 0, 0};
  for (unsigned i = 0; i < pre + pre2 + nop && !ended; i++) {
    unsigned opv = i < pre ? preop : 28; if (i >= pre + pre2) { uint8_t o; sx_sym(&o, 1, "op"); opv = o & 31; }
    unsigned op = (unsigned)sx_conc(opv), n = plen(op); uint64_t v = 0;
    if (n) { sx_sym(&v, 8, "parameters"); if (n < 64) v &= (1ull << n) - 1; }
    if (b.pos + 5 + n > end) ended = 1; else if (op == 30) ended = 1; else { want[nt].op = op; want[nt++].val = n ? v << (64 - n) : 0; }
    if (b.pos < end) { wput(&b, opv, 5); if (n) { if (n > 32) { wput(&b, v >> 32, n - 32); wput(&b, v & 0xffffffff, 32); } else wput(&b, v, n); } }
  }
  if (!ended && b.pos + 5 <= end) wput(&b, 30, 5);
  want[nt].op = 30; want[nt++].val = 0;
  if (junk && b.pos < end) { unsigned o = b.pos & 7, p = (unsigned)(b.pos >> 3); if (o) { uint8_t j; sx_sym(&j, 1, "junk"); buf[p] = (uint8_t)((buf[p] & (0xff00 >> o)) | (j & (0xff >> o))); p++; } if (p < end / 8) sx_sym(buf + p, end / 8 - p, "junk"); }
  static input_stream in; static tokenized_stream out;
  for (unsigned w = 0; w < words; w++) {
    input_stream_element e; for (unsigned k = 0; k < 16; k++) e.data.put(8 * k, 8, buf[16 * w + k]);   /* the first byte is the lowest */
    e.keep = 0xffff; e.strb = 0xffff; e.last = w == words - 1; in.write(e);
  }
  opcode_tokenizer(in, out);
  for (unsigned i = 0; i < nt; i++) {
    sx_assert(!out.empty(), "a token for every operation");
    tokenized_stream_element t = out.read(); 
    sx_observe(t.data.bits64(0), "parameters"); sx_observe(t.data.bits64(64), "op");
    sx_assert(t.data.bits64(64) == want[i].op, "the operations of the stream, in order");
    sx_assert(t.data.bits64(0) == want[i].val, "the parameters follow the opcode, left-aligned, the rest is zero");
    sx_assert((unsigned)t.last == (i == nt - 1), "exactly the end token is marked last");
  }
  sx_assert(out.empty(), "nothing follows the end token");
  sx_reach("tokens");
}
