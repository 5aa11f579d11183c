// Controlled scheduler: threads of the code under test are fibers, one runs at a time, and every synchronization
// operation is a scheduling point whose outcome is dictated by the explorer.  See sched.cpp.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched
{
constexpr int MAXT = 8;          // threads (0 is the set-up / checking phase)
constexpr int MAXSTEP = 20000;   // scheduling points of one execution
struct Choice {uint8_t n, c; bool cur_enabled;};   // number of enabled threads, the one taken (0 = keep running if possible)

// Begin an execution: `prefix` holds the first choices (the rest are 0), `bound` limits preemptions (-1: none).
void begin(const int * prefix, int n, int bound, bool races);
int spawn(void (*fn)(void *), void * arg);
// Runs all threads.  Returns nullptr or what went wrong (deadlock, endless execution, lock misuse).
const char * run();
const char * race();             // first data race or use of freed memory seen, or nullptr
int ntrace();
const Choice * trace();
bool prefix_ok();                // false when the prefix asked for a choice that does not exist
void finish();                   // release deferred memory

// from inside threads
void point();                    // explicit scheduling point
void wait_for(const volatile int * flag);   // block until *flag != 0
int self();                      // 0 outside threads
void track(bool on);             // accesses of this thread are checked for races from now on (off by default)
bool tracking();
// called the first time a thread runs on after a scheduling point (to stamp the start of an operation as late as possible)
void on_next_resume(void (*fn)(void *), void * arg);
uint64_t points();               // scheduling points passed so far by all threads

struct NoTrack
{
  bool was; NoTrack() : was(tracking()) {track(false);}
  ~NoTrack() {track(was);}
};
struct Track
{
  bool was; Track() : was(tracking()) {track(true);}
  ~Track() {track(was);}
};
}  // namespace sched
