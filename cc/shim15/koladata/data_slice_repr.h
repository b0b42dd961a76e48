#ifndef SHIM15_DATA_SLICE_REPR_H_
#define SHIM15_DATA_SLICE_REPR_H_
#include <string>
#include "koladata/data_slice.h"
namespace koladata {
struct ReprOption {
  bool strip_quotes = false;
};
inline std::string DataSliceRepr(const DataSlice&) { return "DataSlice"; }
// Of items; an item of bytes stands for a slice that cannot be shown.
inline absl::StatusOr<std::string> DataSliceToStr(const DataSlice& s, const ReprOption& o = {}) {
  if (s.is_item() && s.item().holds_value<int64_t>()) return std::to_string(s.item().value<int64_t>());
  if (s.is_item() && s.item().holds_value<arolla::Text>()) {
    std::string t(s.item().value<arolla::Text>().view());
    return o.strip_quotes ? t : "'" + t + "'";
  }
  return absl::InvalidArgumentError("cannot be shown");
}
}  // namespace koladata
#endif
