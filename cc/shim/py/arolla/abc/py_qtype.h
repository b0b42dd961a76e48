#ifndef SHIM_PY_QTYPE_H_
#define SHIM_PY_QTYPE_H_
#include <Python.h>
#include "arolla/qtype/qtype.h"
namespace arolla::python {
// Null, with a pending TypeError, when it is not a QType.
QTypePtr UnwrapPyQType(PyObject* o);
PyObject* WrapAsPyQType(QTypePtr t);
}  // namespace arolla::python
#endif
