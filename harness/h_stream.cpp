/* DataCompressionStream / DataDecompressionStream through their public API, under every schedule (bounded preemptions), with a stub
   implementation whose per-chunk results, sizes and failures are symbolic. */
#include "sx.h"
#include <cstdlib>
#include <cstring>
#include <climits>
#include <iostream>
#include <stdexcept>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include "sxthread.h"
using namespace lib842::stream;
enum { MAXB = 4, NC = NUM_CHUNKS_PER_BLOCK };
struct Quiet { Quiet() { sx_norace(1); } ~Quiet() { sx_norace(0); } }; // the harness's own bookkeeping is not part of the program
static const uint8_t *g_in; static size_t g_size; static unsigned g_op;          // current compression operation
static unsigned g_fail[2];                                                       // bit mask of the blocks whose (de)compression fails, per operation
static unsigned g_stopped, g_late, g_threads;                                    // cancelled or failed: how many blocks are started after that
static unsigned g_seen[MAXB], g_done[MAXB], g_started[MAXB], g_errBlocks, g_fin, g_ok, g_inCb; static bool g_cancel, g_mayEnd;
static unsigned g_k, g_others, g_epoch; static int g_ret; static uint64_t g_clen; static bool g_symChunk;
static uint8_t mark(unsigned b, unsigned c, unsigned w) { return (uint8_t)(b * 37 + c * 5 + w * 101 + 11); }
// The engine treats calls into the iostream library as no-ops; std::endl's inlined part only needs a readable object (vptr, ctype table).
static char g_os[512], g_ct[1024], g_vt[64];
static void initLog() { g_ct[56] = 1; *(long *)(g_vt + 8) = 8; *(char **)g_os = g_vt + 32; for (int i = 0; i < 256; i++) g_ct[57 + i] = (char)i; *(char **)(g_os + 8 + 240) = g_ct; }
static std::ostream &lg() { return sx_native() ? std::cerr : *(std::ostream *)g_os; }
// completion of an operation, as a user would wait for it
static std::mutex g_m; static std::condition_variable g_cv; static bool g_flag;
static void finished(bool ok) {
  { Quiet q; g_fin++; g_ok = ok; sx_assert(g_inCb == 0, "finalize callback only after every block has been handled"); }
  std::lock_guard<std::mutex> l(g_m); g_flag = true; g_cv.notify_all(); }
static void waitFinished() { std::unique_lock<std::mutex> l(g_m); g_cv.wait(l, [] { return g_flag; }); g_flag = false; }

// ---- compression
static size_t stubSize(unsigned b, unsigned c) { return g_others == 0 ? 24 + 8 * c + b : g_others == 1 ? CHUNK_SIZE : COMPRESSIBLE_THRESHOLD + 1; }
static int stubCompress(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
  Quiet q; size_t off = in - g_in; unsigned b = (unsigned)(off / BLOCK_SIZE);
  sx_assert(off % BLOCK_SIZE == 0 && off + BLOCK_SIZE <= g_size && b < MAXB, "only whole blocks of the input are compressed");
  sx_assert(n == NC && is == CHUNK_SIZE && os >= COMPRESSIBLE_THRESHOLD, "the block is compressed as NUM_CHUNKS_PER_BLOCK chunks of CHUNK_SIZE");
  sx_assert(g_started[b]++ == 0, "a block is compressed once"); g_inCb++; g_late += g_stopped != 0;
  if (g_fail[g_op] >> b & 1) { for (unsigned i = 0; i < n; i++) rets[i] = 0, ol[i] = 8; return -5; }
  for (unsigned i = 0; i < n; i++) {
    sx_assert(il[i] == CHUNK_SIZE, "chunk length is CHUNK_SIZE"); sx_assert(ol[i] <= os && ol[i] >= COMPRESSIBLE_THRESHOLD, "chunk capacity fits its slot");
    int r = g_others == 1 ? -28 : 0; size_t sz = stubSize(b, i);
    if (g_symChunk && i == g_k) { r = g_ret; sz = g_clen; sx_assume(sz <= ol[i]); }
    rets[i] = r; ol[i] = sz; if (r == 0) { if (sz > ol[i]) sz = ol[i]; out[i * os] = mark(b, i, 1); if (sz > 1 && !(g_symChunk && i == g_k)) out[i * os + sz - 1] = mark(b, i, 2); }
  }
  return 0;
}
static int stubDecompress(size_t, int *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *);
static int noSingle(const uint8_t *, size_t, uint8_t *, size_t *) { sx_assert(0, "only the chunked entry points are used"); return -1; }
static lib842_implementation g_impl = {noSingle, noSingle, stubCompress, stubDecompress, 8, 64};
static void onBlock(Block &&bl) {
  { Quiet q; Block b(std::move(bl)); g_inCb--;
    sx_assert(g_fin == g_op, "no block is delivered after the finalize callback");
    if (b.offset == SIZE_MAX) { sx_assert(g_fail[g_op] != 0, "an error block only after a failure"); g_errBlocks++; g_stopped = 1; return; }
    unsigned i = (unsigned)(b.offset / BLOCK_SIZE); sx_assert(b.offset % BLOCK_SIZE == 0 && i < MAXB && g_started[i] == 1, "block offset"); sx_assert(!(g_fail[g_op] >> i & 1), "a block that failed is delivered as an error");
    sx_assert(g_seen[i]++ == 0, "a block is delivered once");
    if (g_epoch) for (unsigned j = 0; j < i / g_epoch * g_epoch; j++) sx_assert(g_done[j] || g_errBlocks || g_cancel, "blocks of an epoch are delivered only after every block of the epochs before it");
    sx_assert(b.source == g_in + b.offset, "block source points to the original data");
    for (unsigned c = 0; c < NC; c++) {
      bool sym = g_symChunk && c == g_k; size_t want = sym ? g_clen : stubSize(i, c); bool comp = sym ? g_ret == 0 && g_clen <= COMPRESSIBLE_THRESHOLD : want <= COMPRESSIBLE_THRESHOLD;
      sx_assert(b.sizes[c] == (comp ? want : CHUNK_SIZE), "chunk size: the compressed size, or CHUNK_SIZE if it did not compress well enough");
      const uint8_t *p = b.get_chunk(c);
      if (comp) { sx_assert(p == b.get_chunk_buffer() + c * b.chunk_padding && *p == mark(i, c, 1), "compressed chunk data"); if (!sym && want > 1) sx_assert(p[want - 1] == mark(i, c, 2), "compressed chunk data (end)"); sx_reach("compressed chunk"); }
      else { sx_assert(p == g_in + b.offset + c * CHUNK_SIZE, "incompressible chunk refers to the original data"); sx_reach("incompressible chunk"); }
    }
    g_inCb++; }
  unsigned i = 0; { Quiet q; i = (unsigned)(bl.offset / BLOCK_SIZE); }
  sx_yield();
  { Quiet q; g_done[i] = 1; g_inCb--; }
}
static void comp_main() {
  unsigned nt = sx_param("n", 1), nb = sx_param("nb", 2), ops = sx_param("ops", 1), fin = sx_param("fin", 0) /* 0 finalize, 1 cancel, 2 destroy without finalize */, fail = sx_param("fail", 0); g_epoch = sx_param("epoch", 0);
  uint8_t *buf = (uint8_t *)malloc((nb + 1) * BLOCK_SIZE); g_in = buf;
  sx_leak_begin();
  {
    DataCompressionStream s(g_impl, nt, thread_policy::use_defaults, lg, lg);
    if (g_epoch) s.set_offset_sync_epoch_multiple(g_epoch * BLOCK_SIZE);
    if (sx_param("ready", 0)) s.wait_until_ready();
    for (unsigned op = 0; op < ops; op++) {
      size_t size = nb * BLOCK_SIZE;
      { Quiet q;
        if (sx_param("symsize", 1)) { sx_sym(&size, sizeof size, "size"); sx_assume(size < (nb + 1) * BLOCK_SIZE); }
        g_fail[op] = 0; g_stopped = g_late = 0; g_threads = nt; if (fail && op == 0) { uint8_t f; sx_sym(&f, 1, "fail"); sx_assume(f > 0 && f < 1u << nb); g_fail[op] = f; }
        if ((g_symChunk = sx_param("chunks", 0))) { g_k = sx_choose(NC, "chunk"); g_others = sx_choose(3, "others"); sx_sym(&g_ret, 4, "ret"); sx_sym(&g_clen, 8, "clen"); sx_assume(g_clen > 0); }
        memset(g_seen, 0, sizeof g_seen); memset(g_done, 0, sizeof g_done); memset(g_started, 0, sizeof g_started); g_errBlocks = 0; g_size = size; g_op = op; g_inCb = 0; g_cancel = fin == 1 || fin == 2; }
      s.start(buf, size, onBlock);
      if (fin == 2 && op == ops - 1) { sx_yield(); break; }
      s.finalize(fin == 1, finished); if (fin == 1) { Quiet q; g_stopped = 1; }
      waitFinished();
      { Quiet q; sx_assert(g_fin == op + 1, "finalize callback once per operation"); sx_assert(g_late + (fin != 1) <= g_threads, "after a failure or a cancellation no new work is started"); unsigned full = (unsigned)(size / BLOCK_SIZE), nf = 0;
        for (unsigned i = 0; i < MAXB; i++) { if (g_started[i]) sx_assert(g_done[i] || (g_fail[op] >> i & 1), "every compressed block is delivered"); if (i < full && !g_cancel && !g_fail[op]) sx_assert(g_done[i] == 1, "every whole block of the input is delivered"); nf += g_started[i] && (g_fail[op] >> i & 1); }
        sx_assert(g_ok == (nf == 0), "finalize callback reports success exactly if no block failed"); sx_assert(g_errBlocks == nf, "a failed block is delivered as an error");
        if (!g_cancel && (g_fail[op] & ((1u << full) - 1))) sx_assert(nf, "a failing block was tried");
        if (nf) sx_reach("error"); sx_reach("finished"); }
    }
  }
  sx_leak_check();
  free(buf);
}
// ---- decompression
static uint8_t *g_out; static unsigned g_nb, g_pos[MAXB]; static size_t g_sizes[MAXB][NC]; static unsigned g_ksel; static int g_dret; static uint64_t g_dlen; static unsigned g_badBlock;
static int stubDecompress(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
  Quiet q; size_t off = out - g_out; unsigned b = (unsigned)(off / BLOCK_SIZE);
  sx_assert(off % BLOCK_SIZE == 0 && b < g_nb && n == NC && os == CHUNK_SIZE, "destination of the block"); sx_assert(g_started[b]++ == 0, "a block is decompressed once"); sx_assert(g_fin == g_op, "no block is decompressed after the finalize callback"); if (g_threads == 1) sx_assert(!g_errBlocks, "a failure stops the operation");
  g_inCb++; g_late += g_stopped != 0;
  bool bad = false;
  if (g_fail[g_op] >> b & 1) { g_errBlocks++; g_inCb--; for (unsigned i = 0; i < n; i++) rets[i] = 0, ol[i] = CHUNK_SIZE; return -5; }
  for (unsigned c = 0; c < n; c++) {
    size_t z = g_sizes[b][c];
    if (z == 0 || z == CHUNK_SIZE) { sx_assert(il[c] == SIZE_MAX, "chunks that are absent or not compressed are skipped"); continue; }
    sx_assert(il[c] == z, "compressed size is passed on"); sx_assert(ol[c] == CHUNK_SIZE, "room for a whole chunk");
    sx_assert(in[c * is] == mark(b, c, 1), "the chunk's compressed data is passed on");
    out[c * os] = mark(b, c, 3); out[c * os + CHUNK_SIZE - 1] = mark(b, c, 4); rets[c] = 0; ol[c] = CHUNK_SIZE;
    if (g_symChunk && b == g_badBlock && c == g_k) { rets[c] = g_dret; ol[c] = g_dlen; bad = g_dret != 0 || g_dlen != CHUNK_SIZE; }
  }
  sx_yield();
  g_inCb--; if (bad) g_errBlocks++; else g_done[b] = 1;
  return 0;
}
static void decomp_main() {
  unsigned nt = sx_param("n", 1), ops = sx_param("ops", 1), fin = sx_param("fin", 0), fail = sx_param("fail", 0), early = sx_param("early", 0); g_nb = sx_param("nb", 2);
  uint8_t *src = (uint8_t *)malloc(g_nb * BLOCK_SIZE), *dst = (uint8_t *)malloc(g_nb * BLOCK_SIZE); g_out = dst; sx_leak_begin();
  {
    DataDecompressionStream s(g_impl, nt, thread_policy::use_defaults, lg, lg);
    if (sx_param("ready", 0)) s.wait_until_ready();
    for (unsigned op = 0; op < ops; op++) {
      Block blocks[MAXB]; unsigned rot;
      { Quiet q; g_op = op; memset(g_started, 0, sizeof g_started); memset(g_done, 0, sizeof g_done); g_errBlocks = 0; g_inCb = 0; g_cancel = fin == 1;
        g_fail[op] = 0; g_stopped = g_late = 0; g_threads = nt; if (fail && op == 0) { uint8_t f; sx_sym(&f, 1, "fail"); sx_assume(f > 0 && f < 1u << g_nb); g_fail[op] = f; }
        g_badBlock = 255; rot = sx_param("rot", 0); g_others = 0; g_symChunk = sx_param("chunks", 0); if (g_symChunk) { g_k = sx_choose(NC, "chunk"); g_others = sx_choose(3, "others"); sx_sym(&g_dret, 4, "ret"); sx_sym(&g_dlen, 8, "dlen"); g_badBlock = 0; }
        for (unsigned b = 0; b < g_nb; b++) {
          Block &bl = blocks[b]; bl.offset = b * BLOCK_SIZE; bl.chunk_padding = 1024; bl.source = src + b * BLOCK_SIZE; uint8_t *cb = bl.allocate_buffer(64, bl.chunk_padding);
          for (unsigned c = 0; c < NC; c++) {
            size_t z = g_others == 0 ? 100 + c : g_others == 1 ? 0 : CHUNK_SIZE; if (!g_symChunk) z = c == 3 ? 0 : c == 5 ? CHUNK_SIZE : c == 7 ? 1000 : 0;
            if (g_symChunk && b == 0 && c == g_k) { unsigned kind = sx_choose(3, "kind"); if (kind == 0) z = 0; else if (kind == 1) z = CHUNK_SIZE; else { uint16_t v; sx_sym(&v, 2, "csize"); sx_assume(v > 0 && v <= COMPRESSIBLE_THRESHOLD); z = v; } }
            g_sizes[b][c] = z; bl.sizes[c] = z; cb[c * bl.chunk_padding] = mark(b, c, 1); src[b * BLOCK_SIZE + c * CHUNK_SIZE] = mark(b, c, 5); src[b * BLOCK_SIZE + (c + 1) * CHUNK_SIZE - 1] = mark(b, c, 6);
            dst[b * BLOCK_SIZE + c * CHUNK_SIZE] = dst[b * BLOCK_SIZE + (c + 1) * CHUNK_SIZE - 1] = 0; } } }
      s.start(dst);
      bool refused = false; unsigned pushed = 0;
      for (unsigned b = 0; b < g_nb; b++) { unsigned x = (b + rot) % g_nb; if (!s.push_block(std::move(blocks[x]))) { refused = true; break; } pushed |= 1u << x; }
      { Quiet q; if (refused) g_stopped = 1; if (refused) sx_assert(g_errBlocks > 0, "push_block refuses only after a failure"); }
      if (fin == 2 && op == ops - 1) { sx_yield(); break; }
      s.finalize(fin == 1, finished); if (fin == 1) { Quiet q; g_stopped = 1; }
      waitFinished();
      { Quiet q; sx_assert(g_fin == op + 1, "finalize callback once per operation"); sx_assert(g_late + (fin != 1) <= g_threads, "after a failure or a cancellation no new work is started"); sx_assert(g_ok == (g_errBlocks == 0), "finalize callback reports success exactly if every chunk decompressed");
        for (unsigned b = 0; b < g_nb; b++) {
          if (g_ok && fin == 0) sx_assert(g_done[b] == 1, "every pushed block is decompressed");
          if (g_ok && g_done[b]) for (unsigned c = 0; c < NC; c++) { size_t z = g_sizes[b][c]; uint8_t lo = dst[b * BLOCK_SIZE + c * CHUNK_SIZE], hi = dst[b * BLOCK_SIZE + (c + 1) * CHUNK_SIZE - 1];
            if (z == 0) sx_assert(lo == 0 && hi == 0, "an absent chunk leaves the destination alone"); else if (z == CHUNK_SIZE) sx_assert(lo == mark(b, c, 5) && hi == mark(b, c, 6), "an uncompressed chunk is copied"); else sx_assert(lo == mark(b, c, 3) && hi == mark(b, c, 4), "a compressed chunk is decompressed in place"); } }
        if (g_ok) sx_reach("finished"); else sx_reach("error"); }
    }
  }
  sx_leak_check();
  free(src); free(dst);
}
static void align_main() { // constructors reject implementations whose alignment does not divide CHUNK_SIZE
  size_t a; sx_sym(&a, 8, "align"); sx_assume(a > 0 && a <= 2 * CHUNK_SIZE); g_impl.required_alignment = a; bool threw = false; int which = sx_choose(2, "which");
  try { if (which) { DataDecompressionStream s(g_impl, 1, thread_policy::use_defaults, lg, lg); } else { DataCompressionStream s(g_impl, 1, thread_policy::use_defaults, lg, lg); } } catch (const std::runtime_error &) { threw = true; }
  sx_assert(threw == (CHUNK_SIZE % a != 0), "required_alignment must divide CHUNK_SIZE"); sx_reach(threw ? "rejected" : "accepted");
}
// ---- large inputs: no data is touched, so any size can be used
static unsigned g_calls, g_cbs; static size_t g_prev; static bool g_failFirst, g_hold, g_held; static size_t g_limit;
static int hugeCompress(size_t n, int *rets, const uint8_t *in, size_t, const size_t *, uint8_t *, size_t, size_t *ol) {
  bool first; { Quiet q; size_t off = in - g_in; first = g_calls++ == 0; sx_assert(off % BLOCK_SIZE == 0 && off <= g_size && g_size - off >= BLOCK_SIZE, "only whole blocks of the input are compressed");
    if (g_threads == 1) sx_assert(off == (size_t)(g_calls - 1) * BLOCK_SIZE, "blocks in order"); g_late += g_stopped != 0; sx_assert(g_calls <= g_limit, "after a failure or a cancellation no new work is started"); }
  if (first && g_hold) { std::unique_lock<std::mutex> l(g_m); g_held = true; g_cv.notify_all(); g_cv.wait(l, [] { return !g_hold; }); }
  Quiet q; if (first && g_failFirst) { g_stopped = 1; return -5; }
  for (size_t i = 0; i < n; i++) rets[i] = 0, ol[i] = 8;
  return 0;
}
static void onHuge(Block &&bl) { Quiet q; Block b(std::move(bl)); g_cbs++; if (b.offset != SIZE_MAX) sx_assert(b.offset % BLOCK_SIZE == 0 && b.source == g_in + b.offset && b.offset < g_size, "block offset and source"); else sx_assert(g_failFirst, "an error block only after a failure"); }
static void huge_main() { // kind 0: everything is delivered; 1: cancelled during the first block; 2: the first block fails
  unsigned nt = sx_param("n", 1), kind = sx_param("kind", 0), lg2 = sx_param("lg2", 32), epoch = sx_param("epochlog", 0); lib842_implementation impl = g_impl; impl.compress_chunked = hugeCompress;
  uint8_t *buf = (uint8_t *)malloc(64); g_in = buf; size_t extra, size; sx_sym(&extra, 8, "size");
  if (kind == 0) { sx_assume(extra < 3 * BLOCK_SIZE); if (sx_param("conc", 0)) extra = sx_choose(3, "blocks") * BLOCK_SIZE + sx_choose(2, "part") * 4095; size = ((size_t)1 << lg2) + extra; } else { sx_assume(extra >= 2 * BLOCK_SIZE && extra < (size_t)1 << 46); size = extra; }
  g_threads = nt; g_failFirst = kind == 2; g_limit = kind == 0 ? SIZE_MAX : 2 * nt; g_size = size;
  { DataCompressionStream s(impl, nt, thread_policy::use_defaults, lg, lg); if (epoch) s.set_offset_sync_epoch_multiple((size_t)1 << epoch);
    g_hold = kind == 1; s.start(buf, size, onHuge);
    if (kind == 1) { std::unique_lock<std::mutex> l(g_m); g_cv.wait(l, [] { return g_held; }); }
    s.finalize(kind == 1, finished);
    if (kind == 1) { std::lock_guard<std::mutex> l(g_m); g_stopped = 1; g_hold = false; g_cv.notify_all(); }
    waitFinished(); Quiet q; sx_assert(g_fin == 1 && g_ok == (kind != 2), "finalize callback reports success exactly if no block failed"); sx_assert(g_cbs == g_calls, "every compressed block is delivered");
    if (kind == 0) sx_assert(g_calls == size / BLOCK_SIZE, "every whole block of the input is delivered"); else sx_assert(g_late < nt, "after a failure or a cancellation no new work is started");
    sx_reach("finished"); }
  free(buf);
}
static size_t g_hoff;
static int hugeDecompress(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
  Quiet q; sx_assert((size_t)(out - g_out) == g_hoff, "destination of the block"); sx_assert(n == NC && os == CHUNK_SIZE && in != nullptr && is == 1024, "chunks of the block"); g_calls++;
  for (unsigned c = 0; c < NC; c++) { size_t z = c == g_k ? 77 : SIZE_MAX; sx_assert(il[c] == z, "compressed size is passed on, absent chunks are skipped"); if (c == g_k) rets[c] = 0, ol[c] = CHUNK_SIZE; }
  return 0;
}
static void huge_decomp() { // a block at any 64-bit offset
  lib842_implementation impl = g_impl; impl.decompress_chunked = hugeDecompress; uint8_t *dst = (uint8_t *)malloc(64); g_out = dst; sx_sym(&g_hoff, 8, "offset"); sx_assume(g_hoff % BLOCK_SIZE == 0 && g_hoff < (size_t)1 << 46); g_k = sx_choose(NC, "chunk");
  { DataDecompressionStream s(impl, 1, thread_policy::use_defaults, lg, lg); Block b; b.offset = g_hoff; b.chunk_padding = 1024; b.source = nullptr; b.sizes.fill(0); b.sizes[g_k] = 77; b.allocate_buffer(64, 1024);
    s.start(dst); bool p = s.push_block(std::move(b)); s.finalize(false, finished); waitFinished(); Quiet q; sx_assert(p && g_ok && g_calls == 1, "the block is decompressed"); sx_reach("finished"); }
  free(dst);
}
extern "C" void sx_main(void) { initLog(); unsigned m = sx_param("mode", 0); if (m == 0) comp_main(); else if (m == 1) decomp_main(); else if (m == 2) align_main(); else if (m == 3) huge_main(); else huge_decomp(); }
