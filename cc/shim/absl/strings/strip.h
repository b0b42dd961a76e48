#ifndef SHIM_STRIP_H_
#define SHIM_STRIP_H_
#include "absl/strings/match.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
inline bool ConsumePrefix(absl::string_view* s, absl::string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(absl::string_view* s, absl::string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline absl::string_view StripPrefix(absl::string_view s, absl::string_view p) { ConsumePrefix(&s, p); return s; }
inline absl::string_view StripSuffix(absl::string_view s, absl::string_view p) { ConsumeSuffix(&s, p); return s; }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
