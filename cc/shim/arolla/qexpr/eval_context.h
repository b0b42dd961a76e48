#ifndef SHIM_EVAL_CONTEXT_H_
#define SHIM_EVAL_CONTEXT_H_
#include <utility>
#include "absl/status/status.h"
#include "arolla/memory/frame.h"
namespace arolla {
class EvaluationContext {
 public:
  void set_status(absl::Status s) { status_ = std::move(s); }
  const absl::Status& status() const { return status_; }
 private:
  absl::Status status_;
};
}  // namespace arolla
#endif
