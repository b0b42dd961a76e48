#ifndef SHIM_PY_QVALUE_H_
#define SHIM_PY_QVALUE_H_
#include <Python.h>
#include "arolla/qtype/typed_value.h"
namespace arolla::python {
PyTypeObject* PyQValueType();
bool IsPyQValueInstance(PyObject* o);
const TypedValue& UnsafeUnwrapPyQValue(PyObject* o);
// Null, with a pending TypeError, when it is not a QValue.
const TypedValue* UnwrapPyQValue(PyObject* o);
PyObject* WrapAsPyQValue(TypedValue v);
}  // namespace arolla::python
#endif
