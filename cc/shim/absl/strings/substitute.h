#ifndef SHIM_SUBSTITUTE_H_
#define SHIM_SUBSTITUTE_H_
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename... Args>
void SubstituteAndAppend(std::string* out, absl::string_view f, const Args&... args) {
  std::vector<std::string> a{StrCat(args)...};
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      ++i;
      if (f[i] >= '0' && f[i] <= '9' && size_t(f[i] - '0') < a.size()) *out += a[f[i] - '0'];
      else if (f[i] == '$') *out += '$';
    } else {
      *out += f[i];
    }
  }
}
template <typename... Args>
std::string Substitute(absl::string_view f, const Args&... args) {
  std::string s;
  SubstituteAndAppend(&s, f, args...);
  return s;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
