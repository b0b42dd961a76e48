#ifndef SHIM_STR_JOIN_H_
#define SHIM_STR_JOIN_H_
#include <initializer_list>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
std::string StrJoin(std::initializer_list<T> r, absl::string_view sep);
template <typename R>
std::string StrJoin(const R& r, absl::string_view sep) {
  std::string s;
  bool first = true;
  for (const auto& x : r) {
    if (!first) s += sep;
    first = false;
    shim_str::Append(s, x);
  }
  return s;
}
template <typename R, typename F>
std::string StrJoin(const R& r, absl::string_view sep, F&& f) {
  std::string s;
  bool first = true;
  for (const auto& x : r) {
    if (!first) s += sep;
    first = false;
    f(&s, x);
  }
  return s;
}
template <typename T>
std::string StrJoin(std::initializer_list<T> r, absl::string_view sep) {
  return StrJoin(std::vector<T>(r), sep);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
