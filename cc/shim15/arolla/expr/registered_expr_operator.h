#ifndef SHIM15_REGISTERED_OP_H_
#define SHIM15_REGISTERED_OP_H_
#include <memory>
#include <string>
#include <utility>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "arolla/expr/expr_operator.h"
namespace arolla::expr {
absl::StatusOr<ExprOperatorPtr> LookupOperator(absl::string_view name);
absl::StatusOr<ExprOperatorPtr> DecayRegisteredOperator(const ExprOperatorPtr& op);
// The operator of that name at the time.
class RegisteredOperator final : public ExprOperator {
 public:
  explicit RegisteredOperator(absl::string_view name);
};
}  // namespace arolla::expr
#endif
