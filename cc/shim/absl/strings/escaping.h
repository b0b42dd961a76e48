#ifndef SHIM_ESCAPING_H_
#define SHIM_ESCAPING_H_
#include <cstdio>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
inline std::string ShimEscape(absl::string_view s, bool hex, bool utf8) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if ((c >= 32 && c < 127) || (utf8 && c >= 128)) {
          r += (char)c;
        } else {
          char b[8];
          snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c);
          r += b;
        }
    }
  }
  return r;
}
inline std::string CEscape(absl::string_view s) { return ShimEscape(s, false, false); }
inline std::string CHexEscape(absl::string_view s) { return ShimEscape(s, true, false); }
inline std::string Utf8SafeCEscape(absl::string_view s) { return ShimEscape(s, false, true); }
inline std::string Utf8SafeCHexEscape(absl::string_view s) { return ShimEscape(s, true, true); }
inline std::string BytesToHexString(absl::string_view s) {
  std::string r;
  for (unsigned char c : s) {
    char b[4];
    snprintf(b, sizeof b, "%02x", c);
    r += b;
  }
  return r;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
