#ifndef SHIM15_ERROR_UTILS_H_
#define SHIM15_ERROR_UTILS_H_
#include <string>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "arolla/util/status.h"
namespace koladata::internal {
inline absl::Status KodaErrorFromCause(absl::string_view m, absl::Status cause) { return arolla::Wrap(std::move(cause), std::string(m), 0); }
}  // namespace koladata::internal
#endif
