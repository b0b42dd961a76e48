#ifndef SHIM_NOTIFICATION_H_
#define SHIM_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace absl {
class Notification {
 public:
  __attribute__((no_sanitize("thread"), noinline)) bool HasBeenNotified() const { vsim::Point(); if (set_) vsim::Acquire(this); return set_; }
  __attribute__((no_sanitize("thread"), noinline)) void Notify() {
    vsim::Point();
    if (set_) vsim::Fail("fatal", "Notify() called twice");
    vsim::Release(this);
    set_ = true;
    vsim::Wake(this);
  }
  // `why`: for scenarios.
  __attribute__((no_sanitize("thread"), noinline)) void WaitForNotification(const char* why = "a notification") const {
    while (!HasBeenNotified()) vsim::Block(this, why);
  }
 private:
  bool set_ = false;
};
}  // namespace absl
#endif
