#ifndef SHIM15_AROLLA_UTILS_H_
#define SHIM15_AROLLA_UTILS_H_
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "koladata/data_slice.h"
namespace koladata {
// Items only.
inline absl::StatusOr<arolla::TypedValue> DataSliceToArollaValue(const DataSlice& x, const internal::DataItem& = internal::DataItem()) {
  if (!x.is_item()) return absl::UnimplementedError("not modelled");
  if (x.item().holds_value<int64_t>()) return arolla::TypedValue::FromValue(x.item().value<int64_t>());
  if (x.item().holds_value<arolla::Text>()) return arolla::TypedValue::FromValue(x.item().value<arolla::Text>());
  return absl::InvalidArgumentError("unsupported type");
}
inline absl::StatusOr<arolla::TypedRef> DataSliceToOwnedArollaRef(const DataSlice& x, std::vector<arolla::TypedValue>& holder, const internal::DataItem& schema = internal::DataItem()) {
  auto v = DataSliceToArollaValue(x, schema);
  if (!v.ok()) return v.status();
  holder.push_back(*std::move(v));
  return holder.back().AsRef();
}
inline absl::StatusOr<DataSlice> DataSliceFromArollaValue(arolla::TypedRef v, DataSlice::JaggedShape shape, internal::DataItem schema) {
  if (!shape.empty()) return absl::UnimplementedError("not modelled");
  if (v.GetType() == arolla::GetQType<int64_t>()) return DataSlice::Create(internal::DataItem(v.UnsafeAs<int64_t>()), std::move(schema));
  if (v.GetType() == arolla::GetQType<arolla::Text>()) return DataSlice::Create(internal::DataItem(v.UnsafeAs<arolla::Text>()), std::move(schema));
  return absl::InvalidArgumentError("unsupported type");
}
}  // namespace koladata
#endif
