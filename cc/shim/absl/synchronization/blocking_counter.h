#ifndef SHIM_BLOCKING_COUNTER_H_
#define SHIM_BLOCKING_COUNTER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  bool DecrementCount() {
    vsim::Point();
    vsim::Release(this);
    if (--n_ == 0) { vsim::Wake(this); return true; }
    return false;
  }
  void Wait() {
    while (n_ > 0) vsim::Block(this, "a blocking counter");
    vsim::Acquire(this);
  }
 private:
  int n_;
};
}  // namespace absl
#endif
