#ifndef SHIM15_OPERATORS_UTILS_H_
#define SHIM15_OPERATORS_UTILS_H_
#include "absl/status/status.h"
#include "koladata/data_slice.h"
#include "arolla/qtype/named_field_qtype.h"
namespace koladata::ops {
inline absl::StatusOr<absl::string_view> GetStringArgument(const DataSlice&, absl::string_view) { return absl::UnimplementedError("not modelled"); }
inline absl::Status VerifyNamedTuple(arolla::QTypePtr t) {
  if (arolla::IsNamedTupleQType(t)) return absl::OkStatus();
  return absl::InvalidArgumentError("requires a namedtuple");
}
inline absl::Status VerifyIsNonDeterministicToken(arolla::QTypePtr t) {
  if (t == arolla::GetQType<int64_t>()) return absl::OkStatus();
  return absl::InvalidArgumentError("requires a non-deterministic token");
}
}  // namespace koladata::ops
#endif
