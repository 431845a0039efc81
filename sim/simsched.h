// Deterministic scheduler: every thread of the simulated process is a real thread, but only the one holding the baton runs.
// Which one goes on is decided at every synchronisation operation and, in some runs, between memory accesses, by the choice tape.
#pragma once
#include "core.h"
struct SchedCfg {
  int mode = 0;                // 0 mostly keeps going, 1 any thread at every synchronisation, 2 also preempts between memory accesses, 3 fixed random priorities with a few changes
  int spurious_den = 0;        // 1/n condition waits wake up spuriously
  int thread_fail_den = 0;     // 1/n thread creations fail
  bool slow_threads = false;   // timers may expire while threads could run
  bool races = false;          // check accesses for races
};
extern SchedCfg g_sched;
void sched_begin();            // the calling thread becomes thread 0; forgets everything of earlier runs
void sched_end();              // all other threads must have ended
int sim_spawn(const char *name, std::function<void()> fn);
void sim_join(int tid);
void sim_sleep(uint64_t us);
void sim_yield();
uint64_t sim_now();
int sim_self();
uint64_t sched_switches();
uint64_t sched_trace_hash();   // which thread ran after which operation
void random_sched(bool races);
