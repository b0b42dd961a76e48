#ifndef SHIM_PY_AUX_H_
#define SHIM_PY_AUX_H_
#include <Python.h>
#include <memory>
#include <variant>
#include <vector>
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/qtype/typed_value.h"
#define PY_VECTORCALL_ARGUMENTS_OFFSET ((size_t)1 << 63)
namespace arolla::python {
using QValueOrExpr = std::variant<TypedValue, expr::ExprNodePtr>;
class AuxBindingPolicy {
 public:
  expr::ExprNodePtr MakeLiteral(TypedValue&& v) const;
};
using AuxBindingPolicyPtr = std::shared_ptr<const AuxBindingPolicy>;
// Binds values and expressions to the parameters, in order; adds a fresh token
// for an operator that wants one.
bool AuxBindArguments(const expr::ExprOperatorSignature& s, PyObject** args, size_t nargsf, PyObject* kwnames,
                      std::vector<QValueOrExpr>* out, AuxBindingPolicyPtr* policy);
}  // namespace arolla::python
#endif
