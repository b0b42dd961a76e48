#ifndef SHIM_EXPR_NODE_H_
#define SHIM_EXPR_NODE_H_
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "arolla/expr/expr_operator.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/fingerprint.h"
namespace arolla::expr {
class ExprNode;
using ExprNodePtr = std::shared_ptr<const ExprNode>;
// A literal, a leaf, a placeholder or the application of an operator.
class ExprNode {
 public:
  enum Type { kLiteral, kLeaf, kPlaceholder, kOperator };
  ExprNode(Type t, std::string key, std::optional<TypedValue> v, std::optional<int64_t> id, ExprOperatorPtr op, std::vector<ExprNodePtr> deps, QTypePtr qtype)
      : type_(t), key_(std::move(key)), value_(std::move(v)), op_(std::move(op)), deps_(std::move(deps)), qtype_(qtype) {
    FingerprintHasher h("node");
    h.Combine((int64_t)t, key_, id.value_or(-1));
    if (op_) h.Combine(op_->fingerprint());
    for (auto& d : deps_) h.Combine(d->fingerprint());
    fingerprint_ = std::move(h).Finish();
  }
  bool is_leaf() const { return type_ == kLeaf; }
  bool is_literal() const { return type_ == kLiteral; }
  bool is_placeholder() const { return type_ == kPlaceholder; }
  bool is_op() const { return type_ == kOperator; }
  const std::string& leaf_key() const { return key_; }
  const std::string& placeholder_key() const { return key_; }
  const std::optional<TypedValue>& qvalue() const { return value_; }
  const ExprOperatorPtr& op() const { return op_; }
  const std::vector<ExprNodePtr>& node_deps() const { return deps_; }
  const Fingerprint& fingerprint() const { return fingerprint_; }
  QTypePtr qtype() const { return qtype_; }
 private:
  Type type_;
  std::string key_;
  std::optional<TypedValue> value_;
  ExprOperatorPtr op_;
  std::vector<ExprNodePtr> deps_;
  QTypePtr qtype_;
  Fingerprint fingerprint_;
};
}  // namespace arolla::expr
#endif
