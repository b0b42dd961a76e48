#ifndef SHIM15_TO_PROTO_H_
#define SHIM15_TO_PROTO_H_
#include <initializer_list>
#include "absl/status/status.h"
#include "koladata/data_slice.h"
namespace koladata {
template <typename M>
absl::Status ToProto(const DataSlice&, std::initializer_list<M*>) { return absl::UnimplementedError("not modelled"); }
inline absl::Status ToProto(const DataSlice&, std::initializer_list<void*>) { return absl::UnimplementedError("not modelled"); }
}  // namespace koladata
#endif
