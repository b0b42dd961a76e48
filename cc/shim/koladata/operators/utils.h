#ifndef SHIM_OPERATORS_UTILS_H_
#define SHIM_OPERATORS_UTILS_H_
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "koladata/data_slice.h"
namespace koladata::ops {
inline absl::StatusOr<absl::string_view> GetStringArgument(const DataSlice&, absl::string_view) {
  return absl::UnimplementedError("not modelled");
}
inline absl::Status VerifyIsNonDeterministicToken(arolla::QTypePtr t) {
  return t == arolla::GetQType<int64_t>() ? absl::OkStatus() : absl::InvalidArgumentError("expected a token");
}
}  // namespace koladata::ops
#endif
