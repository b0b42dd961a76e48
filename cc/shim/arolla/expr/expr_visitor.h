#ifndef SHIM_EXPR_VISITOR_H_
#define SHIM_EXPR_VISITOR_H_
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "arolla/expr/expr_node.h"
namespace arolla::expr {
inline ExprNodePtr WithDeps(const ExprNodePtr& n, std::vector<ExprNodePtr> deps) {
  if (deps == n->node_deps()) return n;
  return std::make_shared<ExprNode>(ExprNode::kOperator, "", std::nullopt, std::nullopt, n->op(), std::move(deps), n->qtype());
}
// Bottom up.
template <typename F>
absl::StatusOr<ExprNodePtr> Transform(const ExprNodePtr& n, F&& f) {
  std::vector<ExprNodePtr> deps;
  for (auto& d : n->node_deps()) {
    auto r = Transform(d, f);
    if (!r.ok()) return r.status();
    deps.push_back(*std::move(r));
  }
  return f(n->is_op() ? WithDeps(n, std::move(deps)) : n);
}
inline void CollectPlaceholders(const ExprNodePtr& n, std::set<std::string>& out) {
  if (n->is_placeholder()) out.insert(n->placeholder_key());
  for (auto& d : n->node_deps()) CollectPlaceholders(d, out);
}
inline std::vector<std::string> GetPlaceholderKeys(const ExprNodePtr& n) {
  std::set<std::string> s;
  CollectPlaceholders(n, s);
  return std::vector<std::string>(s.begin(), s.end());
}
}  // namespace arolla::expr
#endif
