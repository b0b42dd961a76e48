#ifndef SHIM_PYBIND11_UTILS_H_
#define SHIM_PYBIND11_UTILS_H_
#include <utility>
#include <pybind11/pybind11.h>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "py/arolla/py_utils/py_utils.h"
namespace arolla::python {
inline void pybind11_throw_if_error(const absl::Status& s) {
  if (s.ok()) return;
  SetPyErrFromStatus(s);
  throw pybind11::error_already_set();
}
template <typename T>
T pybind11_unstatus_or(absl::StatusOr<T> s) {
  if (!s.ok()) pybind11_throw_if_error(s.status());
  return *std::move(s);
}
}  // namespace arolla::python
#endif
