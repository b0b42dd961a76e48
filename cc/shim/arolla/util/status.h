// Statuses with a cause and a payload.
#ifndef SHIM_UTIL_STATUS_H_
#define SHIM_UTIL_STATUS_H_
#include <any>
#include <memory>
#include <string>
#include <utility>
#include "absl/status/status.h"
namespace arolla {
struct NotePayload {
  std::string note;
};
struct SourceLocationPayload {
  std::string function_name;
  std::string file_name;
  int32_t line = 0;
  int32_t column = 0;
  std::string line_text;
};
struct CausePayload final : absl::ShimPayload {
  absl::Status cause;
  std::any payload;
};
inline const absl::Status* GetCause(const absl::Status& s) {
  auto* p = dynamic_cast<const CausePayload*>(s.payload());
  return p ? &p->cause : nullptr;
}
template <typename T>
const T* GetPayload(const absl::Status& s) {
  auto* p = dynamic_cast<const CausePayload*>(s.payload());
  return p ? std::any_cast<T>(&p->payload) : nullptr;
}
template <typename T>
absl::Status Wrap(absl::Status cause, const std::string& message, T payload) {
  auto p = std::make_shared<CausePayload>();
  auto code = cause.code();
  p->cause = std::move(cause);
  p->payload = std::move(payload);
  return absl::Status(code, message, std::move(p));
}
inline absl::Status WithSourceLocation(absl::Status s, SourceLocationPayload l) {
  std::string m(s.message());
  return Wrap(std::move(s), m, std::move(l));
}
}  // namespace arolla
#endif
