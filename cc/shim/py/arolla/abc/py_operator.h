#ifndef SHIM_PY_OPERATOR_H_
#define SHIM_PY_OPERATOR_H_
#include <Python.h>
#include "arolla/expr/expr_operator.h"
namespace arolla::python {
// Null, with a pending TypeError, when it is not an operator.
expr::ExprOperatorPtr ParseArgPyOperator(const char* fn, PyObject* o);
PyObject* WrapAsPyOperator(expr::ExprOperatorPtr op);
}  // namespace arolla::python
#endif
