#ifndef SHIM_DTYPE_H_
#define SHIM_DTYPE_H_
namespace koladata::schema {
enum DType { kNone, kMask, kObject, kInt64, kString, kBool };
}  // namespace koladata::schema
#endif
