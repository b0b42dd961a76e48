#ifndef SHIM_MATCH_H_
#define SHIM_MATCH_H_
#include "absl/base/config.h"
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
inline bool StrContains(absl::string_view s, absl::string_view t) { return s.find(t) != s.npos; }
inline bool StrContains(absl::string_view s, char c) { return s.find(c) != s.npos; }
inline bool StartsWith(absl::string_view s, absl::string_view p) { return s.substr(0, p.size()) == p; }
inline bool EndsWith(absl::string_view s, absl::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (ascii_tolower(a[i]) != ascii_tolower(b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(absl::string_view s, absl::string_view p) { return EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(absl::string_view s, absl::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(s.size() - p.size()), p); }
inline bool StrContainsIgnoreCase(absl::string_view s, absl::string_view t) { return AsciiStrToLower(s).find(AsciiStrToLower(t)) != s.npos; }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
