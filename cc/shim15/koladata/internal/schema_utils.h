#ifndef SHIM15_SCHEMA_UTILS_H_
#define SHIM15_SCHEMA_UTILS_H_
#include "koladata/data_slice.h"
namespace koladata::schema {
class CommonSchemaAggregator {
 public:
  void Add(const internal::DataItem& s) {
    if (!s.holds_value<DType>()) vsim::Fail("crash", "not a schema");
    Add(s.value<DType>());
  }
  void Add(DType t) {
    if (!seen_ || res_ == kNone) res_ = t;
    else if (t != kNone && t != res_) res_ = kObject;
    seen_ = true;
  }
  absl::StatusOr<internal::DataItem> Get() && {
    if (!seen_) return internal::DataItem();
    return internal::DataItem(res_);
  }
 private:
  bool seen_ = false;
  DType res_ = kNone;
};
inline absl::StatusOr<internal::DataItem> CommonSchema(const internal::DataItem& a, const internal::DataItem& b) {
  CommonSchemaAggregator agg;
  agg.Add(a);
  agg.Add(b);
  return std::move(agg).Get();
}
}  // namespace koladata::schema
#endif
