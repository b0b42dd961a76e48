#ifndef SHIM_STR_FORMAT_H_
#define SHIM_STR_FORMAT_H_
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#include "absl/base/config.h"
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace shim_str {
inline void Format(std::string& out, absl::string_view f) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '%' && i + 1 < f.size()) ++i;
    out.push_back(f[i]);
  }
}
template <typename T>
void FormatOne(std::string& out, absl::string_view spec, char conv, const T& v) {
  char b[512];
  // `spec` has the flags, the width and the precision.
  std::string p = "%" + std::string(spec);
  if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    if (conv == 'c') { out.push_back((char)v); return; }
    if (conv == 'x' || conv == 'X' || conv == 'o' || conv == 'u') {
      unsigned long long u;
      if constexpr (sizeof(T) == 8) u = (unsigned long long)v;
      else if constexpr (sizeof(T) == 4) u = (unsigned int)v;
      else if constexpr (sizeof(T) == 2) u = (unsigned short)v;
      else u = (unsigned char)v;
      p += "ll"; p += conv;
      snprintf(b, sizeof b, p.c_str(), u);
      out += b;
      return;
    }
    if constexpr (std::is_same_v<T, bool>) {
      if (conv == 'v') { out += v ? "true" : "false"; return; }
    }
    if (conv == 'd' || conv == 'i' || conv == 'v') {
      if constexpr (std::is_unsigned_v<T>) { p += "llu"; snprintf(b, sizeof b, p.c_str(), (unsigned long long)v); }
      else { p += "lld"; snprintf(b, sizeof b, p.c_str(), (long long)v); }
      out += b;
      return;
    }
    Append(out, v);
  } else if constexpr (std::is_floating_point_v<T>) {
    p += conv == 'v' ? 'g' : conv;
    snprintf(b, sizeof b, p.c_str(), (double)v);
    out += b;
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view> || Stringifies<T>) {
    std::string t;
    Append(t, v);
    size_t dot = spec.find('.');
    if (dot != spec.npos) t.resize(std::min<size_t>(t.size(), atoi(std::string(spec.substr(dot + 1)).c_str())));
    int w = atoi(std::string(spec.substr(0, dot)).c_str());
    bool left = w < 0;
    w = std::abs(w);
    if (!left && (int)t.size() < w) out.append(w - t.size(), ' ');
    out += t;
    if (left && (int)t.size() < w) out.append(w - t.size(), ' ');
  } else if constexpr (std::is_pointer_v<T>) {
    snprintf(b, sizeof b, "%p", (const void*)v);
    out += b;
  } else {
    Append(out, v);
  }
}
template <typename T, typename... Rest>
void Format(std::string& out, absl::string_view f, const T& v, const Rest&... rest) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out.push_back(f[i]); continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out.push_back('%'); ++i; continue; }
    size_t j = i + 1;
    while (j < f.size() && f[j] != '*' && !((f[j] >= 'a' && f[j] <= 'z') || (f[j] >= 'A' && f[j] <= 'Z'))) ++j;
    size_t k = j;
    while (k + 1 < f.size() && (f[k] == 'l' || f[k] == 'h' || f[k] == 'z' || f[k] == 'j' || f[k] == 't' || f[k] == 'q')) ++k;
    if constexpr (std::is_integral_v<T>) {
      if (j < f.size() && f[j] == '*') {  // a width or a precision
        std::string g(f.substr(i, j - i));
        g += std::to_string((long long)v);
        g += std::string(f.substr(j + 1));
        if constexpr (sizeof...(rest) > 0) Format(out, g, rest...);
        return;
      }
    }
    FormatOne(out, f.substr(i + 1, j - i - 1), k < f.size() ? f[k] : 'v', v);
    Format(out, f.substr(k < f.size() ? k + 1 : k), rest...);
    return;
  }
}
}  // namespace shim_str
template <typename... Args>
std::string StrFormat(absl::string_view f, const Args&... args) {
  std::string s;
  shim_str::Format(s, f, args...);
  return s;
}
template <typename... Args>
std::string& StrAppendFormat(std::string* d, absl::string_view f, const Args&... args) { shim_str::Format(*d, f, args...); return *d; }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
