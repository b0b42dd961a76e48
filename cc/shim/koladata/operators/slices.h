#ifndef SHIM_SLICES_H_
#define SHIM_SLICES_H_
#include <vector>
#include "absl/status/statusor.h"
#include "koladata/data_slice.h"
namespace koladata::ops {
absl::StatusOr<DataSlice> ConcatOrStack(std::vector<const DataSlice*> args);
}  // namespace koladata::ops
#endif
