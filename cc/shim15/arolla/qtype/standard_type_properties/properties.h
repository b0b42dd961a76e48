#ifndef SHIM15_PROPERTIES_H_
#define SHIM15_PROPERTIES_H_
#include "absl/status/statusor.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
inline absl::StatusOr<QTypePtr> GetScalarQType(QTypePtr t) { return t; }
}  // namespace arolla
#endif
