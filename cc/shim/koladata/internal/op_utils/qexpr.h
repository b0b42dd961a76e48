// Binds an operator's function; what it returns ends in the context.
#ifndef SHIM_KD_QEXPR_H_
#define SHIM_KD_QEXPR_H_
#include <memory>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
#include "arolla/qexpr/operators.h"
namespace koladata {
struct KodaOperatorWrapperFlags {
  static constexpr int kNone = 0, kWrapError = 1, kProfile = 2, kAll = ~0;
};
template <typename F>
class ShimBound final : public arolla::BoundOperator {
 public:
  explicit ShimBound(F f) : f_(std::move(f)) {}
  void Run(arolla::EvaluationContext* ctx, arolla::FramePtr frame) const final {
    if constexpr (std::is_void_v<decltype(f_(ctx, frame))>) {
      f_(ctx, frame);
    } else {
      absl::Status s = f_(ctx, frame);
      if (!s.ok()) ctx->set_status(std::move(s));
    }
  }
 private:
  F f_;
};
template <int flags = KodaOperatorWrapperFlags::kAll, typename F>
std::unique_ptr<arolla::BoundOperator> MakeBoundOperator(absl::string_view, F f) {
  return std::make_unique<ShimBound<F>>(std::move(f));
}
}  // namespace koladata
#endif
