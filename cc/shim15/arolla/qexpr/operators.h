#ifndef SHIM15_QEXPR_OPERATORS_H_
#define SHIM15_QEXPR_OPERATORS_H_
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/memory/frame.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
class BoundOperator {
 public:
  using Fn = std::function<absl::Status(EvaluationContext*, FramePtr)>;
  explicit BoundOperator(Fn fn) : fn_(std::move(fn)) {}
  absl::Status Run(EvaluationContext* ctx, FramePtr frame) const { return fn_(ctx, frame); }
 private:
  Fn fn_;
};
class QExprOperator {
 public:
  QExprOperator(absl::Span<const QTypePtr> in, QTypePtr out) : in_(in.begin(), in.end()), out_(out) {}
  virtual ~QExprOperator() = default;
  absl::StatusOr<std::unique_ptr<BoundOperator>> Bind(absl::Span<const TypedSlot> in, TypedSlot out) const { return DoBind(in, out); }
  QTypePtr output() const { return out_; }
 private:
  virtual absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(absl::Span<const TypedSlot> in, TypedSlot out) const = 0;
  std::vector<QTypePtr> in_;
  QTypePtr out_;
};
using OperatorPtr = std::shared_ptr<const QExprOperator>;
class OperatorFamily {
 public:
  virtual ~OperatorFamily() = default;
  absl::StatusOr<OperatorPtr> GetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const { return DoGetOperator(in, out); }
 private:
  virtual absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const = 0;
};
inline absl::StatusOr<OperatorPtr> EnsureOutputQTypeMatches(absl::StatusOr<OperatorPtr> op, absl::Span<const QTypePtr>, QTypePtr out) {
  if (op.ok() && (*op)->output() != out) return absl::InvalidArgumentError("unexpected output type");
  return op;
}
}  // namespace arolla
#endif
