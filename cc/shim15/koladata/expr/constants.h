#ifndef SHIM15_CONSTANTS_H_
#define SHIM15_CONSTANTS_H_
#include "koladata/data_slice.h"
namespace koladata::expr {
inline DataSlice UnspecifiedSelfInput() { return DataSlice(); }
}  // namespace koladata::expr
#endif
