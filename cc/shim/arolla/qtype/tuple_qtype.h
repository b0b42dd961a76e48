#ifndef SHIM_TUPLE_QTYPE_H_
#define SHIM_TUPLE_QTYPE_H_
#include <initializer_list>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
namespace arolla {
QTypePtr MakeTupleQType(absl::Span<const QTypePtr> types);
TypedValue MakeTuple(absl::Span<const TypedRef> fields);
TypedValue MakeTuple(absl::Span<const TypedValue> fields);
bool IsTupleQType(QTypePtr t);
bool IsNamedTupleQType(QTypePtr t);
absl::StatusOr<TypedValue> MakeNamedTuple(absl::Span<const std::string> names,
                                          absl::Span<const TypedRef> fields);
}  // namespace arolla
#endif
