#ifndef SHIM15_SLICE_BUILDER_H_
#define SHIM15_SLICE_BUILDER_H_
#include <vector>
#include "koladata/data_slice.h"
namespace koladata::internal {
class SliceBuilder {
 public:
  explicit SliceBuilder(size_t n) : v_(n), set_(n) {}
  void InsertIfNotSetAndUpdateAllocIds(int64_t i, DataItem x) {
    if (i < 0 || i >= (int64_t)v_.size()) vsim::Fail("crash", "an index outside of a slice");
    if (set_[i]) return;
    set_[i] = true;
    v_[i] = std::move(x);
  }
  void InsertIfNotSet(int64_t i, DataItem x) { InsertIfNotSetAndUpdateAllocIds(i, std::move(x)); }
  bool IsSet(int64_t i) const { return set_.at(i); }
  DataSliceImpl Build() && { return DataSliceImpl(std::move(v_)); }
 private:
  std::vector<DataItem> v_;
  std::vector<bool> set_;
};
}  // namespace koladata::internal
#endif
