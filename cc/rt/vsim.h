// Deterministic scheduler for C++ code compiled with -fsanitize=thread
// instrumentation. All functions below may only be called by simulated threads
// (or by the single thread that sets a run up); exactly one of them runs at a
// time, so no locking is needed anywhere in the runtime.
#ifndef VSIM_H_
#define VSIM_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace vsim {

// Ends the run with a violation.
[[noreturn]] void Fail(const char* kind, const std::string& message);
// Ends the run because of a limit of the simulator; not a verdict.
[[noreturn]] void Limit(const std::string& message);

// Workload/fault choice in [0, n); 0 is the simplest alternative.
int Pick(int n);
// True with probability num/den; recorded as a choice, 0 = false.
bool Chance(int num, int den);

// A point at which the scheduler may preempt the running thread.
void Point();

int Spawn(std::function<void()> fn, const char* name);
int CurrentThread();
// Marks the calling thread as blocked on `what` until Wake(what).
void Block(const void* what, const char* why);
void Wake(const void* what);
bool WakeOne(const void* what);
// The simulated clock (nanoseconds). It moves only when a thread's deadline is
// the next event, or when the scheduler lets time pass while others could run.
int64_t Now();
constexpr int64_t kNoDeadline = INT64_MAX;
// Like Block(), but only until the deadline; returns whether it was woken up.
bool BlockUntil(const void* what, const char* why, int64_t deadline);
// Blocks until no other thread can run. Returns when the system is quiescent;
// a thread that still waits then is a deadlock, unless it is an idle worker or,
// if asked for, a reader that waits for its stream.
void Quiesce(bool readers_may_wait = false);
// The same, but any thread may wait.
void Settle();
// A scheduling choice in [0, n).
int PickS(int n);
// Lets the other threads run for a few (chosen) steps.
void Pause();

// Happens-before edges for the race detector.
void Acquire(const void* sync);
void Release(const void* sync);

// Fault counters, shown in the evidence.
void Count(const char* fault);
// A line in the event log (kept when replaying).
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool Verbose();
uint64_t Steps();

// Blocks of the arena that are still live.
bool IsLive(const void* p);

// Adds to, and returns, one of the counters of the run (0..15).
int64_t Counter(int i, int64_t add);

// Prevents preemption, and turns the memory checks off, in a scope (used by
// oracles, whose own data is not under test).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

// Raw entry points used by the synchronization shim.
struct MutexImpl {
  int owner = -1;
  int readers = 0;
  uint32_t magic = 0x6d757478;
};
void MutexLock(MutexImpl* m, const void* id);
bool MutexTryLock(MutexImpl* m, const void* id);
void MutexUnlock(MutexImpl* m, const void* id);
void MutexUnlockAndBlock(MutexImpl* m, const void* id, const void* what, const char* why);
void MutexReaderLock(MutexImpl* m, const void* id);
void MutexReaderUnlock(MutexImpl* m, const void* id);
void MutexDestroy(MutexImpl* m, const void* id);
bool MutexHeld(const MutexImpl* m);

struct Scenario {
  const char* name;
  void (*run)();
  Scenario* next;
  Scenario(const char* n, void (*r)());
};

}  // namespace vsim
#endif
