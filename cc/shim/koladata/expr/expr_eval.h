#ifndef SHIM_EXPR_EVAL_H_
#define SHIM_EXPR_EVAL_H_
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
namespace koladata::expr {
inline absl::StatusOr<arolla::TypedValue> EvalOpWithCompilationCache(
    const arolla::expr::ExprOperatorPtr& op, absl::Span<const arolla::TypedRef> inputs) {
  return op->fn(inputs);
}
}  // namespace koladata::expr
#endif
