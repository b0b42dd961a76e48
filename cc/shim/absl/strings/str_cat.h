#ifndef SHIM_STR_CAT_H_
#define SHIM_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <string>
#include <type_traits>
#include "absl/base/config.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
enum PadSpec : uint8_t {
  kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10,
  kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16,
};
struct Hex {
  template <typename T>
  explicit Hex(T v, PadSpec p = kNoPad) : value((uint64_t)(std::make_unsigned_t<T>)v), width(p) {}
  uint64_t value;
  int width;
};
struct Dec {
  template <typename T>
  explicit Dec(T v, PadSpec p = kNoPad) : neg(v < 0), value((uint64_t)v), width(p) {}
  bool neg;
  uint64_t value;
  int width;
};
namespace shim_str {
struct Sink {
  std::string* s;
  void Append(absl::string_view v) { *s += v; }
  void Append(size_t n, char c) { s->append(n, c); }
};
template <typename T>
concept Stringifies = requires(Sink& k, const T& v) { AbslStringify(k, v); };
template <typename T>
void Append(std::string& s, const T& v) {
  if constexpr (std::is_same_v<T, char>) s.push_back(v);
  else if constexpr (std::is_same_v<T, bool>) s += v ? "1" : "0";
  else if constexpr (std::is_convertible_v<const T&, absl::string_view>) s += absl::string_view(v);
  else if constexpr (Stringifies<T>) { Sink k{&s}; AbslStringify(k, v); }
  else if constexpr (std::is_same_v<T, Hex>) {
    char b[40];
    snprintf(b, sizeof b, "%0*llx", v.width, (unsigned long long)v.value);
    s += b;
  } else if constexpr (std::is_same_v<T, Dec>) {
    char b[40];
    snprintf(b, sizeof b, "%0*lld", v.width, (long long)v.value);
    s += b;
  } else if constexpr (std::is_floating_point_v<T>) {
    char b[64];
    snprintf(b, sizeof b, "%.6g", (double)v);
    s += b;
  }
  else if constexpr (std::is_enum_v<T>) s += std::to_string((long long)v);
  else s += std::to_string(v);
}
}  // namespace shim_str
class AlphaNum {
 public:
  template <typename T>
  AlphaNum(const T& v) { shim_str::Append(s_, v); }  // NOLINT
  absl::string_view Piece() const { return s_; }
  size_t size() const { return s_.size(); }
  operator absl::string_view() const { return s_; }
 private:
  std::string s_;
};
template <typename... Args>
std::string StrCat(const Args&... args) {
  std::string s;
  (shim_str::Append(s, args), ...);
  return s;
}
template <typename... Args>
void StrAppend(std::string* d, const Args&... args) { (shim_str::Append(*d, args), ...); }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
