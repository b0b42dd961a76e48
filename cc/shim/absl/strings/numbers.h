#ifndef SHIM_NUMBERS_H_
#define SHIM_NUMBERS_H_
#include <cerrno>
#include <cstdlib>
#include <string>
#include "absl/base/config.h"
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
inline bool SimpleAtod(absl::string_view s, double* out) {
  std::string t(StripAsciiWhitespace(s));
  if (t.empty()) return false;
  if (t.find('x') != t.npos || t.find('X') != t.npos) return false;
  char* e;
  *out = strtod(t.c_str(), &e);
  return *e == 0;
}
inline bool SimpleAtof(absl::string_view s, float* out) { double d; bool r = SimpleAtod(s, &d); *out = d; return r; }
template <typename T>
bool SimpleAtoi(absl::string_view s, T* out) {
  std::string t(StripAsciiWhitespace(s));
  if (t.empty()) return false;
  char* e;
  errno = 0;
  long long v = strtoll(t.c_str(), &e, 10);
  *out = (T)v;
  return *e == 0 && errno == 0 && (long long)(T)v == v;
}
template <typename T>
bool SimpleHexAtoi(absl::string_view s, T* out) {
  std::string t(s);
  if (t.empty()) return false;
  char* e;
  *out = (T)strtoull(t.c_str(), &e, 16);
  return *e == 0;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
