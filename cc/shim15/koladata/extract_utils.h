#ifndef SHIM15_EXTRACT_H_
#define SHIM15_EXTRACT_H_
#include "koladata/data_slice.h"
namespace koladata::extract_utils_internal {
inline absl::StatusOr<DataSlice> Extract(const DataSlice& s) {
  if (s.GetBag() == nullptr) return absl::InvalidArgumentError("cannot extract without a DataBag");
  auto b = std::make_shared<DataBag>();
  for (size_t i = 0; i < s.size(); ++i) {
    auto& x = s.impl()[i];
    if (!x.holds_value<internal::ObjectId>()) continue;
    if (auto* v = s.GetBag()->Find(x.value<internal::ObjectId>())) b->facts[x.value<internal::ObjectId>()] = *v;
  }
  return s.WithBag(std::move(b));
}
}  // namespace koladata::extract_utils_internal
#endif
