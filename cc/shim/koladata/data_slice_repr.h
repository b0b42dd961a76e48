#ifndef SHIM_DATA_SLICE_REPR_H_
#define SHIM_DATA_SLICE_REPR_H_
#include <string>
#include "koladata/data_slice.h"
namespace koladata {
inline std::string DataSliceRepr(const DataSlice&) { return "DataSlice"; }
}  // namespace koladata
#endif
