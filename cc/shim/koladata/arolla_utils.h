#ifndef SHIM_AROLLA_UTILS_H_
#define SHIM_AROLLA_UTILS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "koladata/data_slice.h"
namespace koladata {
template <typename T>
absl::StatusOr<T> ToArollaScalar(const DataSlice& x) {
  if (!x.is_item() || !x.item().has_value()) return absl::InvalidArgumentError("expected a present value");
  if (!x.item().holds_value<T>()) return absl::InvalidArgumentError("unexpected type");
  return x.item().value<T>();
}
}  // namespace koladata
#endif
