#ifndef SHIM_NAMED_FIELD_QTYPE_H_
#define SHIM_NAMED_FIELD_QTYPE_H_
#include <cstdint>
#include <optional>
#include <string>
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/tuple_qtype.h"
namespace arolla {
class NamedFieldQTypeInterface {
 public:
  virtual ~NamedFieldQTypeInterface() = default;
  virtual std::optional<int64_t> GetFieldIndexByName(absl::string_view name) const = 0;
};
bool IsNamedTupleQType(QTypePtr t);
absl::Span<const std::string> GetFieldNames(QTypePtr t);
std::optional<int64_t> GetFieldIndexByName(QTypePtr t, absl::string_view name);
}  // namespace arolla
#endif
