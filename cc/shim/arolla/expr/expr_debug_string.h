#ifndef SHIM_EXPR_DEBUG_H_
#define SHIM_EXPR_DEBUG_H_
#include <string>
#include "arolla/expr/expr_node.h"
namespace arolla::expr {
inline std::string ToDebugString(const ExprNodePtr&, bool = false) { return "expr"; }
}  // namespace arolla::expr
#endif
