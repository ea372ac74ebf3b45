/* Native side of the harness API: replays one or more recorded paths against the real code. */
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <errno.h>
#include <time.h>

struct rec { char name[64]; unsigned n; unsigned char *d; };
struct obs { char name[64]; unsigned long long v; };
static struct rec *R; static size_t nR, iR; static struct obs *O; static size_t nO, iO;
static struct { char name[64]; unsigned long long v; } P[64]; static int nP;
static int expectOk; static unsigned char g_fill = 0xa5; static int g_fillOn; static long g_live; static int g_count; static FILE *g_msg;
#define DIE(code, ...) do { fprintf(g_msg, __VA_ARGS__); fputc('\n', g_msg); fflush(g_msg); _exit(code); } while (0)
/* exit codes of a replay: 0 ok, 77 property violated, 78 diverged from the recorded path, 79 assumption false */
void sx_sym(void *p, size_t n, const char *name) {
  if (iR >= nR) { if (expectOk) DIE(78, "diverged: no record for %s", name); memset(p, 0, n); return; }
  if (R[iR].n != n || strcmp(R[iR].name, name)) { if (expectOk) DIE(78, "diverged: wanted %s/%zu, have %s/%u", name, n, R[iR].name, R[iR].n); memset(p, 0, n); return; }
  memcpy(p, R[iR].d, n); iR++;
}
unsigned sx_choose(unsigned n, const char *name) { unsigned char b = 0; (void)n; sx_sym(&b, 1, name); return b; }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_assume(int c) { if (!c) DIE(79, "assumption false"); }
void sx_assert_(int c, const char *m) { if (!c) DIE(77, "ASSERT %s", m); }
void sx_observe(uint64_t v, const char *name) {
  if (iO >= nO) { if (expectOk) DIE(78, "diverged: extra observation %s", name); return; }
  if (strcmp(O[iO].name, name) || O[iO].v != v) { if (expectOk) DIE(78, "diverged: observation %s: predicted %llx, native %llx", name, O[iO].v, (unsigned long long)v); }
  iO++;
}
void sx_observe_n(const void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) sx_observe(((const unsigned char *)p)[i], name); }
void sx_reach(const char *t) { (void)t; }
uint64_t sx_param(const char *name, uint64_t d) { for (int i = 0; i < nP; i++) if (!strcmp(P[i].name, name)) return P[i].v; return d; }
void sx_fill(unsigned char c) { g_fill = c; g_fillOn = 1; }
int sx_native(void) { return 1; }
void sx_end(void) { fflush(NULL); if (expectOk && iO != nO) DIE(78, "diverged: %zu observations missing", nO - iO); _exit(0); }
#ifndef SX_THREADS
void sx_yield(void) {}
void sx_norace(int on) { (void)on; }
#endif
int sx_peek(const char *name) { return iR < nR && !strcmp(R[iR].name, name); }
void sx_die(int code, const char *msg) { DIE(code, "%s", msg); }
/* allocator wrappers: linked with -Wl,--wrap=malloc,... so that only the harness and the code under test go through them */
#ifdef SX_THREADS /* own heap: no reuse, 32-byte guards, accesses are checked by nthreads.cpp */
void *__real_malloc(size_t); void __real_free(void *); void sx_shadow_heap(void *, size_t, int); size_t sx_heap_size(void *);
int sx_busy(void);
static void *alloc_(size_t n, size_t al) { if (sx_busy()) return __real_malloc(n); char *p = __real_malloc(n + al + 96); if (!p) DIE(78, "out of memory"); p = (char *)(((size_t)p + 32 + al - 1) & ~(al - 1)); memset(p, g_fill, n); sx_shadow_heap(p, n, 0); g_live++; return p; }
static void free_(void *p) { if (!p) return; size_t n = sx_heap_size(p); if (n == (size_t)-1) { __real_free(p); return; } if (n == (size_t)-2) DIE(99, "ERROR: double free"); sx_shadow_heap(p, n, 1); g_live--; }
void *__wrap_malloc(size_t n) { return alloc_(n, 16); } void *__wrap_calloc(size_t a, size_t b) { void *p = alloc_(a * b, 16); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) { void *q = alloc_(n, 16); if (p) { size_t o = sx_heap_size(p); memcpy(q, p, o < n ? o : n); free_(p); } return q; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return alloc_(n, al < 16 ? 16 : al); }
void __wrap_free(void *p) { free_(p); } void *__wrap__Znwm(size_t n) { return alloc_(n, 16); } void *__wrap__Znam(size_t n) { return alloc_(n, 16); }
void __wrap__ZdlPv(void *p) { free_(p); } void __wrap__ZdaPv(void *p) { free_(p); } void __wrap__ZdlPvm(void *p, size_t n) { (void)n; free_(p); } void __wrap__ZdaPvm(void *p, size_t n) { (void)n; free_(p); }
#elif defined SX_WRAP
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real__Znwm(size_t); void *__real__Znam(size_t); void __real__ZdlPv(void *); void __real__ZdaPv(void *); void __real__ZdlPvm(void *, size_t); void __real__ZdaPvm(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { memset(p, g_fill, n); g_live++; } return p; }
void *__wrap_calloc(size_t a, size_t b) { g_live++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (!p) g_live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) g_live--; __real_free(p); }
#ifdef SX_WRAP_CXX
void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); memset(p, g_fill, n); g_live++; return p; }
void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); memset(p, g_fill, n); g_live++; return p; }
void __wrap__ZdlPv(void *p) { if (p) g_live--; __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { if (p) g_live--; __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { if (p) g_live--; __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { if (p) g_live--; __real__ZdaPvm(p, n); }
#endif
#endif
static long g_leak0;
void sx_leak_begin(void) { g_leak0 = g_live; }
void sx_leak_check(void) { if (g_live != g_leak0) DIE(77, "LEAK %ld blocks", g_live - g_leak0); }

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static int load(const char *fn) {
  FILE *f = fopen(fn, "r"); char *line = NULL; size_t cap = 0; ssize_t l; if (!f) return -1;
  while ((l = getline(&line, &cap, f)) > 0) {
    char nm[64]; unsigned n; unsigned long long v; int pos = 0;
    if (sscanf(line, "param %63s %llu", nm, &v) == 2) { strcpy(P[nP].name, nm); P[nP++].v = v; }
    else if (sscanf(line, "sym %63s %u %n", nm, &n, &pos) >= 2) {
      if (!(nR & (nR + 1)) || nR < 16) R = realloc(R, (2 * nR + 32) * sizeof *R); strcpy(R[nR].name, nm); R[nR].n = n; R[nR].d = malloc(n + 1); for (unsigned i = 0; i < n; i++) R[nR].d[i] = hexv(line[pos + 2 * i]) * 16 + hexv(line[pos + 2 * i + 1]); nR++; }
    else if (sscanf(line, "obs %63s %llx", nm, &v) == 2) { if (!(nO & (nO + 1)) || nO < 16) O = realloc(O, (2 * nO + 32) * sizeof *O); strcpy(O[nO].name, nm); O[nO++].v = v; }
    else if (!strncmp(line, "end ok", 6)) expectOk = 1;
  }
  free(line); fclose(f); return 0;
}
#ifdef SX_THREADS
void sx_sched_init(void);
#endif
/* usage: prog [-T seconds] file...   prints "<code> <file> <message>" per file */
int main(int argc, char **argv) {
  int to = 10; int i = 1; if (argc > 2 && !strcmp(argv[1], "-T")) { to = atoi(argv[2]); i = 3; }
  for (; i < argc; i++) {
    int pfd[2]; if (pipe(pfd)) return 3; fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]); dup2(pfd[1], 2); dup2(pfd[1], 1); g_msg = fdopen(dup(pfd[1]), "w"); signal(SIGALRM, SIG_DFL); alarm(to);
      if (load(argv[i])) _exit(3);
#ifdef SX_THREADS
      sx_sched_init();
#endif
      sx_main(); sx_end();
    }
    close(pfd[1]); static char buf[1 << 16]; size_t n = 0; ssize_t r; static char tmp[4096]; 
    while ((r = read(pfd[0], tmp, sizeof tmp)) > 0) { if (n + r < sizeof buf - 1) { memcpy(buf + n, tmp, r); n += r; } }
    buf[n] = 0; close(pfd[0]); int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    /* summarise: the last ASSERT/diverged/ERROR line */
    char *best = buf, *s = buf, msg[400] = ""; (void)best;
    for (char *q = strtok(s, "\n"); q; q = strtok(NULL, "\n")) if (strstr(q, "ERROR: ") || strstr(q, "ASSERT") || strstr(q, "LEAK") || strstr(q, "diverged") || strstr(q, "runtime error") || strstr(q, "Assertion") || strstr(q, "terminate") || strstr(q, "assumption")) { if (!msg[0]) snprintf(msg, sizeof msg, "%s", q); }
    printf("%d %s %s\n", code, argv[i], msg);
  }
  return 0;
}
