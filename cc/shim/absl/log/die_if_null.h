#ifndef SHIM_DIE_IF_NULL_H_
#define SHIM_DIE_IF_NULL_H_
#include <utility>
#include "absl/log/check.h"
namespace shim_log {
template <typename T>
T DieIfNull(T&& t) {
  CHECK(t != nullptr);
  return std::forward<T>(t);
}
}  // namespace shim_log
#define ABSL_DIE_IF_NULL(x) ::shim_log::DieIfNull(x)
#endif
