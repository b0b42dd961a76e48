#ifndef SHIM_CLOCK_H_
#define SHIM_CLOCK_H_
#include "absl/time/time.h"
#include "vsim.h"
namespace absl {
// The simulated clock.
inline Time Now() { return FromUnixNanos(vsim::Now()); }
inline void SleepFor(Duration d) {
  int64_t key = 0, end = vsim::Now() + ToInt64Nanoseconds(d);
  while (vsim::BlockUntil(&key, "a sleep", end)) {}
}
}  // namespace absl
#endif
