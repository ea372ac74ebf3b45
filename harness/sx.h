/* Harness API: the same harness source is executed symbolically by engine/sx and natively (replay). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_sym(void *p, size_t n, const char *name);        /* n fresh symbolic bytes */
unsigned sx_choose(unsigned n, const char *name);        /* one path per value 0..n-1 (n <= 256) */
uint64_t sx_conc(uint64_t v);                            /* one path per feasible value */
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_observe(uint64_t v, const char *name);           /* compared between symbolic and native execution */
void sx_observe_n(const void *p, size_t n, const char *name);
void sx_reach(const char *tag);                          /* vacuity witness */
uint64_t sx_param(const char *name, uint64_t dflt);
void sx_leak_begin(void);
void sx_leak_check(void);
void sx_fill(unsigned char c);                           /* content of uninitialised heap memory from here on */
int sx_native(void);
void sx_end(void);
void sx_yield(void);                                     /* another thread may run here */
void sx_norace(int on);                                  /* the calling thread's accesses are not checked for races while on */
void sx_main(void);
#ifdef __cplusplus
}
#endif
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
#endif
