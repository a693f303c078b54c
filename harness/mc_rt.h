// Stateless model checker of the real code: the library is compiled with -fsanitize=thread instrumentation, but the callbacks,
// pthread functions, futex system calls and the allocator are defined here. Threads are fibers of a controlled scheduler.
// Every execution is one forked child; the parent explores all schedules depth first within preemption, fault and stale-read
// bounds. Executions are pruned on states (happens-before graphs) that have been explored with the same remaining bounds.
#pragma once
#include <stdint.h>
#include <stddef.h>
namespace mc {
struct Options {
  int preemptions = 2;      // Involuntary context switches.
  int faults = 0;           // Failing pthread_create / malloc calls, spurious wake-ups, early time-outs (in total).
  int stale = 0;            // Atomic loads that return an older value allowed by the memory model.
  bool delay = false;       // Every switch away from the default (round-robin) order counts, not only preemptions; for many threads.
  bool create_fails = false, malloc_fails = false, spurious = false, timeouts = false;
  bool memory_at_exit = true;   // All memory allocated by the execution must have been freed when all threads are done.
  bool threads_at_exit = true;  // No thread may be left blocked.
  bool report_races = true;
  int fair = 3000;          // A thread is switched away from after this many scheduling points (spinning threads).
  uint64_t max_executions = 10000000;
  double max_seconds = 1e9;
};
void init();   // First statement of main().
// Explores `body` (run as thread 0). `name` identifies the client; failures are reported through vh::fail with case "name/trace".
void explore(const char* name, void (*body)(void*), void* arg, const Options& o);

// For client code.
int spawn(void (*fn)(void*), void* arg);
void join(int tid);
void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
int choose(int n);          // Free nondeterministic choice.
void yield();               // A scheduling point that gives way.
int self();
void post(void* key);       // Counts up; await() blocks until the count has been reached (synchronizes).
void await(void* key, int n);
void settle();              // Blocks until all other threads are blocked or finished.
int threads_alive();        // Threads other than the caller that have not finished.
int threads_created();
size_t live_blocks();       // Blocks allocated by this execution and not freed.
void observe(uint64_t v);   // Adds to the outcome of the execution (to count distinct outcomes).
void quiet(bool on);        // While on, no decisions are taken (set-up and tear-down phases), no races are looked for.
}
