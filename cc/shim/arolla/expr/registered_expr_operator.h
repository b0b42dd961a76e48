#ifndef SHIM_REGISTERED_OP_H_
#define SHIM_REGISTERED_OP_H_
#include "absl/status/statusor.h"
#include "arolla/expr/expr_operator.h"
namespace arolla::expr {
inline absl::StatusOr<ExprOperatorPtr> DecayRegisteredOperator(const ExprOperatorPtr& op) { return op; }
}  // namespace arolla::expr
#endif
