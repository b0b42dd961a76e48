#ifndef SHIM15_NON_DETERMINISM_H_
#define SHIM15_NON_DETERMINISM_H_
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "arolla/expr/expr_node.h"
namespace koladata::expr {
inline constexpr absl::string_view kNonDeterministicTokenLeafKey = "_koladata_non_deterministic_token_leaf";
absl::StatusOr<arolla::expr::ExprNodePtr> GenNonDeterministicToken();
}  // namespace koladata::expr
#endif
