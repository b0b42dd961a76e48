#ifndef SHIM_STR_REPLACE_H_
#define SHIM_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename R>
std::string ShimReplaceAll(absl::string_view s, const R& reps) {
  std::string out;
  for (size_t i = 0; i < s.size();) {
    absl::string_view best, with;
    for (const auto& [a, b] : reps) {
      absl::string_view from(a), to(b);
      if (!from.empty() && s.substr(i, from.size()) == from && from.size() > best.size()) {
        best = from;
        with = to;
      }
    }
    if (best.empty()) {
      out += s[i++];
    } else {
      out += with;
      i += best.size();
    }
  }
  return out;
}
inline std::string StrReplaceAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> r) { return ShimReplaceAll(s, r); }
template <typename R>
std::string StrReplaceAll(absl::string_view s, const R& r) { return ShimReplaceAll(s, r); }
inline int StrReplaceAll(std::initializer_list<std::pair<absl::string_view, absl::string_view>> r, std::string* s) { *s = ShimReplaceAll(*s, r); return 1; }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
