#ifndef SHIM_WRAP_UTILS_H_
#define SHIM_WRAP_UTILS_H_
#include <Python.h>
#include "absl/strings/string_view.h"
#include "koladata/data_slice.h"
namespace koladata::python {
inline const DataSlice* UnwrapDataSlice(PyObject*, absl::string_view) { return nullptr; }
inline PyObject* WrapPyDataSlice(DataSlice) { return nullptr; }
}  // namespace koladata::python
#endif
