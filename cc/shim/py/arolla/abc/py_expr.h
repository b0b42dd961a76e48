#ifndef SHIM_PY_EXPR_H_
#define SHIM_PY_EXPR_H_
#include <Python.h>
#include "arolla/expr/expr_node.h"
namespace arolla::python {
// Null, with a pending TypeError, when it is not an expression.
expr::ExprNodePtr UnwrapPyExpr(PyObject* o);
PyObject* WrapAsPyExpr(expr::ExprNodePtr e);
}  // namespace arolla::python
#endif
