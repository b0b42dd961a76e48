#ifndef SHIM15_QUOTE_H_
#define SHIM15_QUOTE_H_
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/expr/expr_node.h"
namespace arolla::expr {
class ExprQuote {
 public:
  ExprQuote() = default;
  explicit ExprQuote(ExprNodePtr e) : e_(std::move(e)) {}
  absl::StatusOr<ExprNodePtr> expr() const {
    if (!e_) return absl::InvalidArgumentError("uninitialized ExprQuote");
    return e_;
  }
  friend bool operator==(const ExprQuote& a, const ExprQuote& b) { return a.e_ == b.e_; }
 private:
  ExprNodePtr e_;
};
}  // namespace arolla::expr
#endif
