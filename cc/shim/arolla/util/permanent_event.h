// A model of arolla::PermanentEvent on the simulated clock.
#ifndef SHIM_PERMANENT_EVENT_H_
#define SHIM_PERMANENT_EVENT_H_
#include <memory>
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "vsim.h"
namespace arolla {
// Called before a wait, so that a scenario can judge it.
extern void (*g_on_event_wait)(int64_t deadline);
class PermanentEvent;
using PermanentEventPtr = std::shared_ptr<PermanentEvent>;
class PermanentEvent {
 public:
  static PermanentEventPtr Make() { return std::make_shared<PermanentEvent>(); }
  __attribute__((no_sanitize("thread"), noinline)) bool HasBeenNotified() const {
    vsim::Point();
    if (set_) vsim::Acquire(this);
    return set_;
  }
  __attribute__((no_sanitize("thread"), noinline)) void Notify() {
    vsim::Point();
    vsim::Release(this);
    set_ = true;
    vsim::Wake(this);
  }
  void Wait() const { WaitWithDeadline(absl::InfiniteFuture()); }
  __attribute__((no_sanitize("thread"), noinline)) bool WaitWithDeadline(absl::Time t) const {
    int64_t d = t == absl::InfiniteFuture() ? vsim::kNoDeadline : absl::ToUnixNanos(t);
    if (g_on_event_wait) g_on_event_wait(d);
    for (;;) {
      bool late = d <= vsim::Now();
      if (HasBeenNotified()) return true;
      if (late) return false;
      vsim::BlockUntil(this, "an event", d);
    }
  }
 private:
  bool set_ = false;
};
}  // namespace arolla
#endif
