/* detail::barrier and detail::latch under every schedule (bounded preemptions).
   mode 0 barrier: every thread publishes plain data before arriving and reads everybody's after leaving; 1 barrier with interrupt(); 2 latch. */
#include "sx.h"
#include <thread>
#include <memory>
#include <lib842/detail/barrier.h>
#include <lib842/detail/latch.h>
using lib842::detail::barrier; using lib842::detail::latch;
#include "sxthread.h"
static int stage[8][4]; static int passed[4];
extern "C" void sx_main(void) {
  unsigned mode = sx_param("mode", 0), n = sx_param("n", 2), rounds = sx_param("rounds", 2);
  std::thread t[4]; sx_leak_begin();
  if (mode == 0) {
    barrier b(n);
    for (unsigned i = 0; i < n; i++) t[i] = std::thread([&b, n, rounds, i] { for (unsigned r = 0; r < rounds; r++) { stage[r][i] = 1 + (int)i; b.arrive_and_wait(); for (unsigned j = 0; j < n; j++) sx_assert(stage[r][j] == 1 + (int)j, "no thread leaves the barrier before all have arrived"); } passed[i] = 1; });
    for (unsigned i = 0; i < n; i++) t[i].join();
    for (unsigned i = 0; i < n; i++) sx_assert(passed[i], "every thread passes the barrier");
    sx_reach("all passed");
  } else if (mode == 1) {
    unsigned missing = sx_param("missing", 1); barrier b(n + missing);
    for (unsigned i = 0; i < n; i++) t[i] = std::thread([&b, rounds, i] { for (unsigned r = 0; r < rounds; r++) b.arrive_and_wait(); passed[i] = 1; });
    b.interrupt();
    for (unsigned i = 0; i < n; i++) t[i].join();
    for (unsigned i = 0; i < n; i++) sx_assert(passed[i], "interrupt() releases every thread");
    sx_reach("interrupted");
  } else {
    latch l(n);
    for (unsigned i = 0; i < n; i++) t[i] = std::thread([&l, i] { stage[0][i] = 1 + (int)i; l.count_down(); });
    t[n] = std::thread([&l, n] { l.wait(); for (unsigned j = 0; j < n; j++) sx_assert(stage[0][j] == 1 + (int)j, "wait() returns only after every count_down()"); passed[0] = 1; });
    l.wait(); for (unsigned j = 0; j < n; j++) sx_assert(stage[0][j] == 1 + (int)j, "wait() returns only after every count_down()");
    for (unsigned i = 0; i <= n; i++) t[i].join();
    l.wait(); sx_assert(passed[0], "every waiter is released"); sx_reach("latched");
  }
  sx_leak_check();
}
