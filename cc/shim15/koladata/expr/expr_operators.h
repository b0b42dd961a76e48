#ifndef SHIM15_EXPR_OPERATORS_H_
#define SHIM15_EXPR_OPERATORS_H_
#include "arolla/expr/expr_operator.h"
namespace koladata::expr {
class InputOperator final : public arolla::expr::ExprOperator {
 public:
  InputOperator() : ExprOperator([](auto) -> absl::StatusOr<arolla::TypedValue> { return absl::InternalError("an input was not replaced"); }, "koda_internal.input") {}
};
}  // namespace koladata::expr
#endif
