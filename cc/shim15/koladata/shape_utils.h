#ifndef SHIM15_SHAPE_UTILS_H_
#define SHIM15_SHAPE_UTILS_H_
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "koladata/data_slice.h"
namespace koladata::shape {
inline absl::StatusOr<DataSlice::JaggedShape> GetCommonShape(const std::vector<DataSlice>& v) {
  DataSlice::JaggedShape r;
  for (auto& s : v) if (s.GetShape().size() > r.size()) r = s.GetShape();
  return r;
}
inline absl::StatusOr<std::pair<std::vector<DataSlice>, DataSlice::JaggedShape>> AlignNonScalars(std::vector<DataSlice> v) {
  auto s = *GetCommonShape(v);
  return std::pair(std::move(v), std::move(s));
}
}  // namespace koladata::shape
#endif
