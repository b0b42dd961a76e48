#ifndef SHIM15_KD_SCHEMA_UTILS_H_
#define SHIM15_KD_SCHEMA_UTILS_H_
#include "koladata/data_slice.h"
#include "koladata/internal/schema_utils.h"
namespace koladata {
inline internal::DataItem GetNarrowedSchema(const DataSlice& x) { return x.GetSchemaImpl(); }
}  // namespace koladata
#endif
