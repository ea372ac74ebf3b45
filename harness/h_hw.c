/* Linux cryptodev back end (src/cryptodev) over a model of the kernel interface: open/fcntl/ioctl/close and the thread-specific
   storage calls are stubs whose results are chosen by the solver.  mode 0: one context, chunked and single calls with symbolic
   arguments; mode 1: context life cycle over two threads with every possible failure; mode 2: the AIX back end's calls. */
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <crypto/cryptodev.h>
#include <lib842/hw.h>
#include <lib842/aix.h>
static uint64_t sym64(const char *n) { uint8_t b[8]; sx_sym(b, 8, n); uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[i]; return v; }
static uint32_t sym32(const char *n) { uint8_t b[4]; sx_sym(b, 4, n); return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
#define MAXFD 8
static struct { int open; unsigned ses; int hasses; int thread; } fds[MAXFD]; static int nfd, nops, failing, cur;      /* cur: the calling thread */
static void *tls[2]; static void (*tlsDtor)(void *); static int keyMade, keyFailed, onceDone, access_r; static uint16_t amask; static int lastErr, allowFail;
static int fail(const char *what) { if (!allowFail || !sx_choose(2, what)) return 0; failing++; lastErr = 5 + failing; errno = lastErr; return 1; }
int sxk_open(const char *path, int fl) { sx_assert(strcmp(path, "/dev/crypto") == 0, "opens the crypto device"); (void)fl; if (fail("open")) return -1; sx_assert(nfd < MAXFD, "no unbounded opening of the device"); fds[nfd].open = 1; fds[nfd].thread = cur; return 3 + nfd++; }
int sxk_fcntl(int fd, int cmd, int a) { (void)fd; (void)cmd; (void)a; if (fail("fcntl")) return -1; return 0; }
int sxk_close(int fd) { int i = fd - 3; sx_assert(i >= 0 && i < nfd && fds[i].open, "closes an open descriptor"); sx_assert(!fds[i].hasses, "the session is finished before its descriptor is closed"); fds[i].open = 0; return fail("close") ? -1 : 0; }
int sxk_access(const char *path, int m) { (void)m; sx_assert(strcmp(path, "/dev/crypto") == 0, "looks for the crypto device"); return access_r; }
long sxk_sysconf(int n) { (void)n; return 4096; }
void sxk_call_once(void *f, void (*g)(void)) { (void)f; if (!onceDone) { onceDone = 1; g(); } }
int sxk_tss_create(void *k, void (*d)(void *)) { *(unsigned *)k = 0; if (fail("tss_create")) { keyFailed = 1; *(unsigned *)k = 99; return 2; } *(unsigned *)k = 5; keyMade = 1; tlsDtor = d; return 0; }
int sxk_tss_set(unsigned k, void *v) { sx_assert(keyMade && k == 5, "thread storage is used only with a valid key"); if (fail("tss_set")) return 2; tls[cur] = v; return 0; }
void *sxk_tss_get(unsigned k) { sx_assert(keyMade && k == 5, "thread storage is used only with a valid key"); return tls[cur]; }
/* what the caller asked for, to compare with what reaches the kernel */
static struct { int active, op, calls; size_t n; const uint8_t *in; size_t is; const size_t *il; uint8_t *out; size_t os; size_t ol[CRYPTODEV_COMP_MAX_CHUNKS]; int kr[CRYPTODEV_COMP_MAX_CHUNKS]; uint32_t kl[CRYPTODEV_COMP_MAX_CHUNKS]; int failed; } q;
static int fits(size_t stride, size_t n) { return n == 0 || stride <= UINT32_MAX / n; }
int sxk_ioctl(int fd, unsigned long req, void *p) {
  int i = fd - 3; sx_assert(i >= 0 && i < nfd && fds[i].open, "ioctl on an open descriptor");
  if (req == CIOCGSESSION) { struct session_op *s = p; sx_assert(s->compr == CRYPTO_842 && s->cipher == 0 && s->mac == 0, "842 compression session"); if (fail("CIOCGSESSION")) return -1; sx_assert(!fds[i].hasses, "one session per descriptor"); fds[i].hasses = 1; fds[i].ses = 40 + i; s->ses = 40 + i; return 0; }
  if (req == CIOCFSESSION) { sx_assert(fds[i].hasses && *(__u32 *)p == fds[i].ses, "finishes its own session"); fds[i].hasses = 0; return fail("CIOCFSESSION") ? -1 : 0; }
  sx_assert(fds[i].hasses && fds[i].thread == cur, "the calling thread's own session is used");
  if (req == CIOCGSESSINFO) { struct session_info_op *s = p; sx_assert(s->ses == fds[i].ses, "session id"); if (fail("CIOCGSESSINFO")) return -1; s->alignmask = amask; return 0; }
  sx_assert(req == CIOCCRYPT, "known request"); struct crypt_op *c = p; nops++;
  sx_assert(c->ses == fds[i].ses, "session id"); if (!q.active) return 0;
  q.calls++;
  sx_assert(c->op == (q.op ? COP_DECRYPT : COP_ENCRYPT), "direction"); sx_assert(c->flags == 0 && !c->mac && !c->iv, "unused fields are zero");
  sx_assert(c->src == q.in && c->dst == q.out, "buffers"); sx_assert(((uintptr_t)q.in & amask) == 0 && ((uintptr_t)q.out & amask) == 0, "buffers that reach the kernel satisfy its alignment mask");
  sx_assert(c->numchunks == q.n && q.n <= CRYPTODEV_COMP_MAX_CHUNKS, "number of chunks");
  for (size_t k = 0; k < q.n; k++) {
    sx_assert((uint64_t)c->chunklens[k] == q.il[k] || (q.il[k] == SIZE_MAX && c->chunklens[k] == UINT32_MAX), "chunk length is not truncated"); sx_assert(q.il[k] == SIZE_MAX || c->chunklens[k] != UINT32_MAX, "only chunks to be skipped are marked so");
    sx_assert((uint64_t)c->chunkdlens[k] == q.ol[k], "chunk capacity is not truncated");
  }
  sx_assert(fits(q.is, q.n) && q.is * q.n == c->len, "total input length is not truncated"); sx_assert(fits(q.os, q.n) && q.os * q.n == c->dlen, "total output length is not truncated");
  if (sx_choose(2, "cryptfails")) { q.failed = 9; errno = 9; return -1; }
  for (size_t k = 0; k < q.n; k++) { q.kl[k] = c->chunkdlens[k]; if (q.il[k] == SIZE_MAX) continue; c->chunkrets[k] = q.kr[k] = (int)sym32("kret"); c->chunkdlens[k] = q.kl[k] = sym32("kolen"); }
  return 0;
}
static void thread_exit(int t) { if (tls[t]) { void *v = tls[t]; tls[t] = 0; int c = cur; cur = t; tlsDtor(v); cur = c; } }
static void nothing_left(void) { for (int i = 0; i < nfd; i++) sx_assert(!fds[i].open && !fds[i].hasses, "no descriptor or session is left open"); }
static void ops(void) {
  unsigned N = sx_param("n", 3), op = sx_choose(2, "op"), single = sx_choose(2, "single"), viaimpl = sx_choose(2, "impl"), bits = sx_choose(5, "alignmask"); static const uint16_t AM[5] = {0, 7, 127, 4095, 65535}; amask = AM[bits];
  const struct lib842_implementation *I = get_hw842_implementation(); sx_assert(I->required_alignment == (size_t)amask + 1, "required alignment is what the kernel asks for"); sx_assert(I->preferred_alignment == 4096, "preferred alignment is the page size");
  static uint8_t mem[8]; unsigned mis = sx_choose(3, "misaligned");       /* buffers are only addresses here: nothing may dereference them */
  uint8_t *in = (uint8_t *)0x7000000000ul, *out = (uint8_t *)0x7100000000ul; (void)mem; if (mis == 1) in += sym64("inmis") & 0x1ffff; if (mis == 2) out += sym64("outmis") & 0x1ffff;
  memset(&q, 0, sizeof q); q.active = 1; q.op = op; q.in = in; q.out = out;
  size_t il[CRYPTODEV_COMP_MAX_CHUNKS + 2], ol[CRYPTODEV_COMP_MAX_CHUNKS + 2]; int rets[CRYPTODEV_COMP_MAX_CHUNKS + 2];
  size_t n = single ? 1 : sx_choose(N + 2, "n"); if (n == N + 1) n = CRYPTODEV_COMP_MAX_CHUNKS + 1;
  size_t is = sym64("istride"), os = sym64("ostride");
  for (size_t i = 0; i < n; i++) { il[i] = i < N ? sym64("ilen") : 8; ol[i] = i < N ? sym64("ocap") : 8; rets[i] = 0x5a5a; if (i < CRYPTODEV_COMP_MAX_CHUNKS) q.ol[i] = ol[i]; }
  if (single) { is = il[0]; os = ol[0]; }
  size_t o0[CRYPTODEV_COMP_MAX_CHUNKS + 2]; memcpy(o0, ol, sizeof ol);
  q.n = n; q.is = is; q.il = il; q.os = os;
  int r = single ? (viaimpl ? (op ? I->decompress : I->compress)(in, il[0], out, &ol[0]) : (op ? hw842_decompress : hw842_compress)(in, il[0], out, &ol[0]))
                 : (viaimpl ? (op ? I->decompress_chunked : I->compress_chunked)(n, rets, in, is, il, out, os, ol) : (op ? hw842_decompress_chunked : hw842_compress_chunked)(n, rets, in, is, il, out, os, ol));
  sx_observe((uint32_t)r, "r");
  int ok = n <= CRYPTODEV_COMP_MAX_CHUNKS && ((uintptr_t)in & amask) == 0 && ((uintptr_t)out & amask) == 0 && fits(is, n) && fits(os, n);
  for (size_t i = 0; i < n; i++) if ((il[i] >= UINT32_MAX && (il[i] != SIZE_MAX || single)) || o0[i] > UINT32_MAX) ok = 0;
  if (!ok) { sx_assert(q.calls == 0, "an invalid request does not reach the kernel"); sx_assert(r == -EINVAL, "an invalid request is rejected"); sx_reach("rejected"); }
  else sx_assert(q.calls == 1, "a valid request reaches the kernel once");
  if (q.calls && q.failed) { sx_assert(r == -q.failed, "the kernel's error is reported"); sx_reach("kernel error"); }
  int succeeded = q.calls && !q.failed;
  if (succeeded) { sx_assert(r == (single ? q.kr[0] : 0), "result"); sx_reach("done"); }
  for (size_t i = 0; i < n; i++) {
    sx_assert(ol[i] == (succeeded ? q.kl[i] : o0[i]), "output lengths come from the kernel, and stay as they were on failure");
    if (succeeded && !single && il[i] != SIZE_MAX) sx_assert(rets[i] == q.kr[i], "chunk results come from the kernel");
    if (single == 0 && (il[i] == SIZE_MAX || !q.calls)) sx_assert(rets[i] == 0x5a5a, "results of skipped chunks are not touched");
  }
  thread_exit(0); nothing_left();
}
static void lifecycle(void) {
  allowFail = 1; access_r = sx_choose(2, "nodevice") ? -1 : 0; amask = 127; unsigned first = sx_choose(3, "order"); sx_assert((hw842_available() != 0) == (access_r == 0), "availability is that of the device");
  sx_leak_begin();
  for (unsigned k = 0; k < sx_param("calls", 3); k++) {
    cur = first == 0 ? k & 1 : first == 1 ? 0 : k > 1; int before = nops, f0 = failing, had = tls[cur] != 0, kf = keyFailed, fd0 = nfd; lastErr = 0;
    uint8_t *in = (uint8_t *)0x7000000000ul, *out = (uint8_t *)0x7100000000ul; size_t il = 64, ol = 64, is = 64; int rets = 0; int r;
    q.active = 0; r = sx_choose(2, "which") ? hw842_compress(in, il, out, &ol) : hw842_decompress_chunked(1, &rets, in, is, &il, out, ol, &ol);
    sx_observe((uint32_t)(r < 0), "failed");
    if (had) { sx_assert(nfd == fd0, "a thread's context is created once"); sx_assert(nops == before + 1, "request made"); }
    if (kf || failing > f0) { sx_assert(r < 0, "a failure to create the context is reported"); sx_assert(nops == before, "no request without a context"); sx_assert(tls[cur] == 0, "no context after a failure"); sx_reach("setup failure"); }
    else { sx_assert(nops == before + 1 && tls[cur] != 0, "request made with a context"); sx_reach("request"); }
    int openN = 0; for (int i = 0; i < nfd; i++) openN += fds[i].open; sx_assert(openN == (tls[0] != 0) + (tls[1] != 0), "one descriptor per thread with a context");
  }
  { cur = 0; int f0 = failing, had = tls[0] != 0; const struct lib842_implementation *I = get_hw842_implementation(); if (failing > f0 || keyFailed) sx_assert(I->required_alignment == 0x10000, "largest alignment while the device cannot be asked"); else sx_assert(I->required_alignment == 128, "required alignment"); (void)had; }
  allowFail = sx_param("dtorfail", 0); thread_exit(0); thread_exit(1); nothing_left(); sx_leak_check(); sx_reach("done");
}
/* AIX */
static struct { int op, calls, flags, ret; const void *in; size_t il; void *out; size_t olv, set; } a;
static int accel(int op, void *in, size_t il, void *out, size_t *ol, int fl) { a.op = op; a.calls++; a.flags = fl; a.in = in; a.il = il; a.out = out; a.olv = *ol; *ol = a.set = sym64("olen"); return a.ret = (int)sym32("ret"); }
int accel_compress(void *in, size_t il, void *out, size_t *ol, int fl) { return accel(0, in, il, out, ol, fl); }
int accel_decompress(void *in, size_t il, void *out, size_t *ol, int fl) { return accel(1, in, il, out, ol, fl); }
#ifdef LIB842_HAVE_AIX_HWCOMPRESSION
static void aix(void) {
  const struct lib842_implementation *I = get_aix842_implementation(); unsigned op = sx_choose(2, "op"), many = sx_choose(2, "many"); size_t il = sym64("ilen"), ol = sym64("ocap"), o0 = ol; int ret = 0x5a5a; uint8_t *in = (uint8_t *)0x7000000000ul, *out = (uint8_t *)0x7100000000ul;
  if (many) { int r = (op ? I->decompress_chunked : I->compress_chunked)(1, &ret, in, 64, &il, out, 64, &ol); (void)r; if (il == SIZE_MAX) { sx_assert(!a.calls && ol == o0 && ret == 0x5a5a, "skipped chunk"); return; } }
  else ret = (op ? I->decompress : I->compress)(in, il, out, &ol);
  sx_assert(a.calls == 1 && a.op == (int)op, "calls the accelerator in the direction asked for"); sx_assert(a.in == in && a.out == out && a.il == il && a.olv == o0 && a.flags == 0, "arguments"); sx_assert(ret == a.ret && ol == a.set, "result and length"); sx_reach("done");
}
#endif
void sx_main(void) { unsigned m = sx_param("mode", 0); if (m == 0) ops(); else if (m == 1) lifecycle(); 
#ifdef LIB842_HAVE_AIX_HWCOMPRESSION
  else aix();
#endif
}
