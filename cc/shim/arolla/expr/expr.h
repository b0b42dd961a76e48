#ifndef SHIM_EXPR_H_
#define SHIM_EXPR_H_
#include <string>
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_visitor.h"
#include "vsim.h"
namespace arolla::expr {
inline ExprNodePtr Leaf(absl::string_view key) {
  return std::make_shared<ExprNode>(ExprNode::kLeaf, std::string(key), std::nullopt, std::nullopt, nullptr, std::vector<ExprNodePtr>(), nullptr);
}
// The value's fingerprint is its number.
inline ExprNodePtr LiteralNode(TypedValue v, int64_t id) {
  QTypePtr t = v.GetType();
  return std::make_shared<ExprNode>(ExprNode::kLiteral, std::string(t->name()), std::move(v), id, nullptr, std::vector<ExprNodePtr>(), t);
}
inline absl::StatusOr<ExprNodePtr> MakeOpNode(ExprOperatorPtr op, std::vector<ExprNodePtr> deps, QTypePtr type = nullptr) {
  return ExprNodePtr(std::make_shared<ExprNode>(ExprNode::kOperator, "", std::nullopt, std::nullopt, std::move(op), std::move(deps), type));
}
absl::StatusOr<ExprNodePtr> CallOp(absl::string_view op, std::vector<ExprNodePtr> deps);
}  // namespace arolla::expr
#endif
