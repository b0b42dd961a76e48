#ifndef SHIM_ANNOTATION_UTILS_H_
#define SHIM_ANNOTATION_UTILS_H_
#include "absl/status/status.h"
#include "arolla/qtype/named_field_qtype.h"
namespace arolla::expr {
inline absl::Status VerifySourceLocationType(QTypePtr t) {
  for (const char* f : {"function_name", "file_name", "line", "column", "line_text"}) {
    if (!GetFieldIndexByName(t, f)) return absl::InvalidArgumentError("expected a source location");
  }
  return absl::OkStatus();
}
}  // namespace arolla::expr
#endif
