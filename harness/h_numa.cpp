/* spread_threads_among_numa_nodes() against a symbolic machine: which CPUs are online and on which node, which nodes have memory the process may use,
   whether NUMA is available, and which pinning call fails. The thread handles are made up; the kernel and libnuma are the stand-ins below.
   mode 0: the function itself; mode 1: through the constructors of the two streams (real threads). */
#include "sx.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <vector>
#include <thread>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <numa.h>
#include "stream/numa_spread.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include "sxthread.h"
enum { MAXN = 4, MAXC = 8, MAXT = 8, WORDS = 16 };
static unsigned nodes, cpus, stride, nstride, avail, failat;
static uint8_t owner[MAXC];              /* node of a CPU; == nodes: offline */
static uint8_t allowed[MAXN];            /* the process may allocate memory there (a node without memory is never allowed) */
static int live, calls; static unsigned used[MAXN]; static uint8_t pinned[MAXT]; static unsigned nth; static uintptr_t base;
static unsigned id(unsigned c) { return c * stride; }
static unsigned nid(unsigned n) { return n * nstride; } /* numbers of nodes and CPUs may have gaps */
static int online(unsigned c) { return owner[c] != nodes; }
static int eligible(unsigned n) { int any = 0; for (unsigned c = 0; c < cpus; c++) any |= owner[c] == n; return any & (allowed[n] != 0); }
extern "C" {
static struct bitmask *mk(unsigned long size) { struct bitmask *b = (struct bitmask *)malloc(sizeof *b); b->size = size; b->maskp = (unsigned long *)calloc(WORDS, sizeof(unsigned long)); live++; return b; }
struct bitmask *nk_numa_bitmask_alloc(unsigned int n) { return mk(n); }
struct bitmask *nk_numa_allocate_cpumask(void) { return mk(WORDS * 64); }
struct bitmask *nk_numa_allocate_nodemask(void) { return mk(WORDS * 64); }
void nk_numa_bitmask_free(struct bitmask *b) { if (!b) return; live--; free(b->maskp); free(b); }
void nk_numa_free_cpumask(struct bitmask *b) { nk_numa_bitmask_free(b); }
void nk_numa_free_nodemask(struct bitmask *b) { nk_numa_bitmask_free(b); }
int nk_numa_bitmask_isbitset(const struct bitmask *b, unsigned int n) { return n < b->size ? (int)(b->maskp[n / 64] >> (n % 64) & 1) : 0; }
unsigned int nk_numa_bitmask_weight(const struct bitmask *b) { unsigned w = 0; for (unsigned i = 0; i < b->size; i++) w += (unsigned)(b->maskp[i / 64] >> (i % 64) & 1); return w; }
struct bitmask *nk_numa_bitmask_clearall(struct bitmask *b) { for (unsigned i = 0; i < WORDS; i++) b->maskp[i] = 0; return b; }
unsigned int nk_numa_bitmask_nbytes(struct bitmask *b) { return (unsigned)(b->size / 8); }
int nk_numa_available(void) { return avail ? 0 : -1; }
int nk_numa_max_node(void) { return (int)nid(nodes - 1); }
int nk_numa_max_possible_node(void) { return WORDS * 64 - 1; }
int nk_numa_num_configured_nodes(void) { return (int)nodes; }
int nk_numa_num_possible_nodes(void) { return WORDS * 64; }
int nk_numa_num_possible_cpus(void) { return WORDS * 64; }
int nk_numa_num_configured_cpus(void) { return (int)id(cpus - 1) + 1; }
int nk_get_nprocs_conf(void) { return (int)id(cpus - 1) + 1; }
int nk_get_nprocs(void) { int n = 0; for (unsigned c = 0; c < cpus; c++) n += online(c); return n; }
struct bitmask *nk_numa_get_mems_allowed(void) { struct bitmask *b = mk(WORDS * 64); for (unsigned n = 0; n < nodes; n++) b->maskp[nid(n) / 64] |= (unsigned long)(allowed[n] != 0) << nid(n) % 64; return b; }
int nk_numa_node_to_cpus(int n, struct bitmask *b) {
  if (n < 0 || n % nstride || n / nstride >= nodes) { errno = ENOENT; return -1; }
  n /= nstride;
  nk_numa_bitmask_clearall(b);
  for (unsigned c = 0; c < cpus; c++) b->maskp[id(c) / 64] |= (unsigned long)(owner[c] == n) << (id(c) % 64);
  return 0;
}
int nk_sched_cpucount(size_t sz, const cpu_set_t *m) { int n = 0; for (size_t k = 0; k < sz * 8; k++) n += ((const unsigned char *)m)[k / 8] >> (k % 8) & 1; return n; }
int nk_pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *m) {
  unsigned i; calls++;
  sx_assert(sz <= sizeof(cpu_set_t) && sz * 8 > id(cpus - 1), "the CPU set is complete");
  if (base) { i = (unsigned)((uintptr_t)t - base); } else i = calls - 1; /* real threads: identified by order */
  sx_assert(i < nth, "only the threads passed in are pinned");
  const unsigned char *p = (const unsigned char *)m; int any = 0, bits[MAXC];
  for (unsigned c = 0, k = 0; k < sz * 8; k++) { int bit = p[k / 8] >> (k % 8) & 1; if (c < cpus && k == id(c)) { bits[c] = bit; any |= bit & online(c); c++; } else sx_assert(!bit, "no CPU that does not exist"); }
  if (failat && calls == (int)failat) return ESRCH;
  if (!any) return EINVAL;
  int match = -1;
  for (unsigned n = 0; n < nodes; n++) { int same = eligible(n); for (unsigned c = 0; c < cpus; c++) same &= bits[c] == (owner[c] == n); if (same) match = (int)n; }
  sx_assert(match >= 0, "a thread is pinned to all online CPUs of one usable node and to nothing else");
  sx_assert(!pinned[i], "a thread is pinned once"); pinned[i] = 1;
  if (match >= 0) used[match]++;
  return 0;
}
}
static void expect(void) {
  unsigned k = 0, lo = ~0u, hi = 0, e[MAXN];
  for (unsigned n = 0; n < nodes; n++) { e[n] = 0; if (eligible(n)) { e[n] = 1; k++; if (used[n] < lo) lo = used[n]; if (used[n] > hi) hi = used[n]; } }
  if (!avail) { sx_assert(calls == 0, "without NUMA nothing is pinned"); sx_reach("no NUMA"); return; }
  if (!k) { sx_reach("no usable node"); return; }
  if (failat && calls >= (int)failat) { sx_reach("pinning fails"); return; }
  for (unsigned i = 0; i < nth; i++) sx_assert(pinned[i], "every thread is pinned");
  sx_assert(hi - lo <= 1, "the threads are spread evenly among the usable nodes");
  sx_reach("spread"); for (unsigned n = 0; n < nodes; n++) sx_observe(used[n], "used");
}
extern "C" void sx_main(void) {
  nodes = sx_param("nodes", 2); cpus = sx_param("cpus", 4); stride = sx_param("stride", 1); nstride = sx_param("nstride", 1); nth = sx_param("nt", 3); failat = sx_param("failat", 0); avail = sx_param("avail", 1);
  unsigned mode = sx_param("mode", 0), rounds = sx_param("rounds", 1);
  sx_sym(owner, cpus, "owner"); for (unsigned c = 0; c < cpus; c++) sx_assume(owner[c] <= nodes);
  sx_assume(owner[0] != nodes); /* the boot CPU */
  sx_sym(allowed, nodes, "allowed"); for (unsigned n = 0; n < nodes; n++) sx_assume(allowed[n] <= 1);
  if (mode == 0) {
    for (unsigned r = 0; r < rounds; r++) {
      std::vector<std::thread> v(nth); static_assert(sizeof(std::thread) == sizeof(pthread_t), "std::thread holds the handle only");
      base = 0x1000 * (r + 1); for (unsigned i = 0; i < nth; i++) { pthread_t h = (pthread_t)(base + i); memcpy((void *)&v[i], &h, sizeof h); }
      calls = 0; memset(used, 0, sizeof used); memset(pinned, 0, sizeof pinned);
      spread_threads_among_numa_nodes(v);
      sx_assert(v.size() == nth, "the threads are left alone");
      for (unsigned i = 0; i < nth; i++) { pthread_t h; memcpy(&h, (void *)&v[i], sizeof h); sx_assert((uintptr_t)h == base + i, "the threads are left alone"); h = 0; memcpy((void *)&v[i], &h, sizeof h); }
      expect();
    }
  } else {
    using namespace lib842::stream;
    static lib842_implementation im; im.required_alignment = 8; im.preferred_alignment = 8;
    thread_policy pol = sx_choose(2, "policy") ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
    auto log = []() -> std::ostream & { static std::ostream *o; return *o; };
    if (sx_param("dec", 0)) { DataDecompressionStream s(im, nth, pol, log, log); if (pol == thread_policy::use_defaults) { sx_assert(calls == 0, "the default policy pins nothing"); sx_reach("default policy"); } else expect(); }
    else { DataCompressionStream s(im, nth, pol, log, log); if (pol == thread_policy::use_defaults) { sx_assert(calls == 0, "the default policy pins nothing"); sx_reach("default policy"); } else expect(); }
  }
  sx_assert(live == 0, "every node and CPU mask is freed");
}
