// vcsched - controlled scheduler for stateless model checking of multi-threaded C++.
// Tasks run as fibers of one OS thread. Translation units under test are compiled with -fsanitize=thread, but the
// instrumentation calls (every shared read, write and atomic) land here and are the points where the scheduler may
// switch; mutexes (linked with --wrap=pthread_mutex_lock/unlock/trylock) block fibers, not the OS thread.
// Every schedule with at most `preemptions` forced switches is explored through vc::choose().
// Reduction: accesses and atomics are switch points only if their code location took part in a conflict (same address,
// two tasks, at least one write) in a profiling run of the tasks, in one of three fixed orders; locks always are.
#pragma once
#include <functional>
#include <vector>
#include <cstdint>
namespace vcs {
struct Options { int preemptions = 2; bool allAccesses = false, symmetric = false; }; // symmetric: all tasks are the same, start them in order
enum Order { FORWARDS, BACKWARDS, ROTATE }; // ROTATE: switch at every atomic and lock
void profile(std::vector<std::function<void()>> tasks, Order o); // runs them in one fixed order, records conflicts
void profileIn(std::function<void()> f); // runs f (which profiles) in a process of its own and takes over the locations found; a crash there is left to the exploration
int run(std::vector<std::function<void()>> tasks, const Options &o); // one schedule, chosen by vc::choose; returns the number of preemptions
bool inFiber();
uint64_t points();   // switch points met in the last run
size_t conflictSites(); void dumpSites();
}
