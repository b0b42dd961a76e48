#ifndef SHIM_DATA_BAG_REPR_H_
#define SHIM_DATA_BAG_REPR_H_
#include <string>
#include "absl/status/statusor.h"
#include "koladata/data_bag.h"
namespace koladata {
inline absl::StatusOr<std::string> DataBagStatistics(const DataBagPtr&, size_t = 5) { return std::string("DataBag"); }
}  // namespace koladata
#endif
