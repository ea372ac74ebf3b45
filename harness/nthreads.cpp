// Native side of the engine's threads: real threads passing a baton, in the recorded order; with happens-before
// race detection and heap checks on the accesses the compiler reports (objects are built with -fsanitize=thread,
// these are the __tsan_* entry points).  Linked with --wrap for the pthread/std::thread entry points.
#include "sx.h"
#include <pthread.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <thread>
extern "C" {
int sx_peek(const char *name); void sx_die(int code, const char *msg);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
void sx_thread_main(void *);
}
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Clk { uint32_t c[8]; };
struct T { St st = RUN; void *w = nullptr, *w2 = nullptr; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; void *arg = nullptr; Clk k = {}; };
static T th[8]; static int nth = 1, cur = 0; static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static __thread int me = 0, norace = 0; static __thread int busy = 0; struct Busy { int b = busy; Busy() { busy = 1; } ~Busy() { busy = b; } };
static std::map<void *, int> *owner; static std::map<void *, Clk> *svc; static int spurious = 0;
struct Cell { int wt = -1; bool wa = false; unsigned ra = 0; uint32_t wc = 0, rc[8] = {0}; };
static std::unordered_map<uintptr_t, Cell> *shadow; struct Blk { size_t n; bool freed; }; static std::map<uintptr_t, Blk> *heap; static bool race;
static void joinC(Clk &a, const Clk &b) { for (int i = 0; i < 8; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acq(void *p) { Busy bb; if (nth > 1) { auto i = svc->find(p); if (i != svc->end()) joinC(th[me].k, i->second); } }
static void rel(void *p) { Busy bb; if (nth > 1) { joinC((*svc)[p], th[me].k); th[me].k.c[me]++; } }
static void access_(const volatile void *p0, size_t n, bool w, bool at) {
  if (busy) return; busy = 1; uintptr_t p = (uintptr_t)p0;
  if (heap && n) { auto i = heap->upper_bound(p + n - 1); if (i != heap->begin()) { --i; uintptr_t s = i->first; size_t z = i->second.n; if (p + n > s - 16 && p < s + z + 16) { if (i->second.freed && p >= s && p < s + z) sx_die(99, "ERROR: access to freed heap memory"); if (!i->second.freed && (p + n > s + z || p < s)) sx_die(99, "ERROR: access outside a heap block"); } } }
  if (race && nth > 1 && !norace) for (size_t k = 0; k < n; k++) { if (n > 32 && k == 8) k = n - 8;
    Cell &x = (*shadow)[p + k]; Clk &c = th[me].k; bool bad = x.wt >= 0 && x.wt != me && x.wc > c.c[x.wt] && !(at && x.wa);
    if (w) for (int t = 0; t < nth; t++) if (t != me && x.rc[t] > c.c[t] && !(at && (x.ra >> t & 1))) bad = true;
    if (bad) { char b[200]; snprintf(b, sizeof b, "ASSERT data race on %p, thread %d (%s, %zu bytes)", (void *)(p + k), me, w ? "write" : "read", n); sx_die(77, b); }
    if (w) { x.wt = me; x.wc = c.c[me]; x.wa = at; } else { x.rc[me] = c.c[me]; if (at) x.ra |= 1u << me; else x.ra &= ~(1u << me); } }
  busy = 0;
}
static std::vector<int> runnable() { std::vector<int> r; for (int i = 0; i < nth; i++) { T &t = th[i]; if (t.st == RUN || (t.st == MUTEX && !(*owner)[t.w]) || (t.st == JOIN && th[(size_t)t.w].st == DONE)) r.push_back(i); } return r; }
static void grant(int i) { T &t = th[i]; int sv = me; me = i; if (t.st == MUTEX) { (*owner)[t.w] = i + 1; acq(t.w); } if (t.st == JOIN) joinC(t.k, th[(size_t)t.w].k); me = sv; t.st = RUN; }
static void schedule() {
  int b0 = busy; busy = 1; std::vector<int> r = runnable(); if (r.empty()) sx_die(77, "ASSERT deadlock: no runnable thread");
  int v; if (sx_peek("sched")) { unsigned char c; sx_sym(&c, 1, "sched"); v = c; bool ok = false; for (int i : r) ok |= i == v; if (!ok) { if (getenv("SXT")) fprintf(stderr, "want %d\n", v); sx_die(78, "diverged: recorded thread cannot run"); } }
  else { v = r[0]; for (int i : r) if (i == me) v = i; static long n; if (++n > 100000) sx_die(77, "ASSERT threads do not terminate"); }
  if (getenv("SXT")) fprintf(stderr, "sched me %d -> %d\n", me, v);
  cur = v; grant(v);
  if (v != me) { pthread_cond_signal(&th[v].cv); if (th[me].st == DONE) { __real_pthread_mutex_unlock(&G); pthread_exit(nullptr); } while (cur != me) pthread_cond_wait(&th[me].cv, &G); }
  busy = b0;
}
extern "C" {
void sx_sched_init(void) { Busy bb; owner = new std::map<void *, int>; svc = new std::map<void *, Clk>; shadow = new std::unordered_map<uintptr_t, Cell>; race = sx_param("race", 0); th[0].k.c[0] = 1; __real_pthread_mutex_lock(&G); }
void sx_shadow_heap(void *p, size_t n, int freed) { int b = busy; busy = 1; if (!heap) heap = new std::map<uintptr_t, Blk>; (*heap)[(uintptr_t)p] = Blk{n, (bool)freed}; if (!freed && shadow) for (size_t i = 0; i < n && shadow->size(); i++) if (n < 100000) shadow->erase((uintptr_t)p + i); busy = b; }
size_t sx_heap_size(void *p) { Busy bb; if (!heap) return (size_t)-1; auto i = heap->find((uintptr_t)p); if (i == heap->end()) return (size_t)-1; return i->second.freed ? (size_t)-2 : i->second.n; }
int sx_busy(void) { return busy; }
unsigned sx_tid(void) { return me; }
void sx_norace(int on) { norace += on ? 1 : -1; }
void sx_yield(void) { if (nth > 1) schedule(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (busy) return __real_pthread_mutex_lock(m);
  Busy bb;  if ((*owner)[m] == me + 1) sx_die(77, "ASSERT deadlock: mutex locked twice by its owner");
  if (nth == 1) { (*owner)[m] = 1; return 0; }
  th[me].st = MUTEX; th[me].w = m; schedule(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { Busy bb; if ((*owner)[m]) return 16; (*owner)[m] = me + 1; acq(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (busy) return __real_pthread_mutex_unlock(m); Busy bb; if ((*owner)[m] != me + 1) sx_die(77, "ASSERT unlock of a mutex not held by this thread"); (*owner)[m] = 0; rel(m); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, std::unique_lock<std::mutex> *lk) {
  Busy bb; void *m = lk->mutex()->native_handle(); if ((*owner)[m] != me + 1) sx_die(77, "ASSERT condition wait without holding the mutex");
  (*owner)[m] = 0; rel(m); th[me].st = COND; th[me].w = cv; th[me].w2 = m;
  if (sx_peek("spur")) { unsigned char c; sx_sym(&c, 1, "spur"); if (c) { th[me].st = MUTEX; th[me].w = m; } }
  schedule(); }
static void notify(void *cv, bool all) {
  Busy bb;  std::vector<int> ws; for (int i = 0; i < nth; i++) if (th[i].st == COND && th[i].w == cv) ws.push_back(i);
  if (all) { for (int i : ws) { th[i].st = MUTEX; th[i].w = th[i].w2; } return; }
  unsigned char c = 255; if (sx_peek("notify")) sx_sym(&c, 1, "notify"); else if (!ws.empty()) c = ws[0];
  if (c != 255) { if (c >= nth || th[c].st != COND || th[c].w != cv) sx_die(78, "diverged: recorded waiter is not waiting"); th[c].st = MUTEX; th[c].w = th[c].w2; } }
void __wrap__ZNSt18condition_variable10notify_oneEv(void *cv) { notify(cv, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *cv) { notify(cv, true); }
static void *tramp(void *a) {
  me = (int)(size_t)a; __real_pthread_mutex_lock(&G); while (cur != me) pthread_cond_wait(&th[me].cv, &G);
  sx_thread_main(th[me].arg); th[me].st = DONE; schedule(); return nullptr; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t *self, void **up, void (*)()) {
  int b0 = busy; busy = 1; int id = nth++; if (id >= 8) sx_die(78, "diverged: too many threads"); th[id].arg = *up; *up = nullptr; th[id].k = th[me].k; th[id].k.c[id] = 1; th[me].k.c[me]++; *self = id + 1;
  pthread_t p; pthread_create(&p, nullptr, tramp, (void *)(size_t)id); pthread_detach(p); busy = b0; schedule(); }
void __wrap__ZNSt6thread4joinEv(uint64_t *self) { Busy bb; uint64_t id = *self; *self = 0; if (!id || id > (uint64_t)nth) sx_die(77, "ASSERT join of a thread that is not joinable"); th[me].st = JOIN; th[me].w = (void *)(id - 1); schedule(); }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) { return sx_param("threads", 2); }
int __wrap_sched_yield(void) { sx_yield(); return 0; }
// ---- what -fsanitize=thread calls
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { access_(p, n, false, false); } void __tsan_write##n(void *p) { access_(p, n, true, false); } void __tsan_unaligned_read##n(void *p) { access_(p, n, false, false); } void __tsan_unaligned_write##n(void *p) { access_(p, n, true, false); } \
  void __tsan_read_write##n(void *p) { access_(p, n, true, false); } void __tsan_unaligned_read_write##n(void *p) { access_(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access_(p, 8, true, false); } void __tsan_vptr_read(void **p) { access_(p, 8, false, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, false, false); access_(d, n, true, false); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, true, false); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty *p, int) { access_(p, sizeof(ty), false, true); acq((void *)p); ty v = *p; sx_yield(); return v; } \
  void __tsan_atomic##b##_store(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); rel((void *)p); *p = v; sx_yield(); } \
  ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = v; sx_yield(); return o; } \
  ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = o + v; sx_yield(); return o; } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = o - v; sx_yield(); return o; } \
  ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = o & v; sx_yield(); return o; } \
  ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = o | v; sx_yield(); return o; } \
  ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; *p = o ^ v; sx_yield(); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; sx_yield(); return ok; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
  ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int, int) { access_(p, sizeof(ty), true, true); acq((void *)p); rel((void *)p); ty o = *p; if (o == e) *p = v; sx_yield(); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
