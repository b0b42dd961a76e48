#ifndef SHIM_SCHEMA_UTILS_H_
#define SHIM_SCHEMA_UTILS_H_
#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "koladata/data_slice.h"
#include "koladata/internal/dtype.h"
namespace koladata {
inline absl::Status ExpectPresentScalar(absl::string_view name, const DataSlice& x) {
  if (!x.is_item() || !x.item().has_value()) return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be an item"));
  return absl::OkStatus();
}
inline absl::Status ExpectPresentScalar(absl::string_view name, const DataSlice& x, schema::DType dtype) {
  if (!x.is_item() || !x.item().has_value() || x.GetSchemaImpl() != dtype) {
    return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be an item holding another type"));
  }
  return absl::OkStatus();
}
inline absl::Status ExpectInteger(absl::string_view name, const DataSlice& x) {
  if (x.GetSchemaImpl() != schema::kInt64) return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be a slice of integer values"));
  return absl::OkStatus();
}
inline absl::Status ExpectString(absl::string_view name, const DataSlice& x) {
  if (x.GetSchemaImpl() != schema::kString) return absl::InvalidArgumentError(absl::StrCat("argument `", name, "` must be a slice of STRING"));
  return absl::OkStatus();
}
}  // namespace koladata
#endif
