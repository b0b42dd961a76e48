#ifndef SHIM_LABELED_QTYPE_H_
#define SHIM_LABELED_QTYPE_H_
#include "absl/strings/string_view.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
QTypePtr GetLabeledQType(QTypePtr base, absl::string_view label);
absl::string_view GetQTypeLabel(QTypePtr t);
}  // namespace arolla
#endif
