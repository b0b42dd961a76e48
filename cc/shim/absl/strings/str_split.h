#ifndef SHIM_STR_SPLIT_H_
#define SHIM_STR_SPLIT_H_
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
#include "absl/strings/strip.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
struct ByString {
  explicit ByString(absl::string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(absl::string_view s, size_t pos) const {
    if (d.empty()) return pos + 1 < s.size() ? std::make_pair(pos + 1, size_t{0}) : std::make_pair(s.npos, size_t{0});
    return {s.find(d, pos), d.size()};
  }
  std::string d;
};
struct ByChar {
  explicit ByChar(char c) : d(c) {}
  std::pair<size_t, size_t> Find(absl::string_view s, size_t pos) const { return {s.find(d, pos), 1}; }
  char d;
};
struct ByAnyChar {
  explicit ByAnyChar(absl::string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(absl::string_view s, size_t pos) const { return {s.find_first_of(d, pos), 1}; }
  std::string d;
};
struct AllowEmpty { bool operator()(absl::string_view) const { return true; } };
struct SkipEmpty { bool operator()(absl::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(absl::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace shim_split {
inline ByChar Delim(char c) { return ByChar(c); }
inline ByString Delim(absl::string_view s) { return ByString(s); }
inline ByString Delim(const char* s) { return ByString(s); }
inline ByString Delim(const std::string& s) { return ByString(s); }
template <typename D>
  requires requires(const D& d) { d.Find(absl::string_view(), size_t{}); }
const D& Delim(const D& d) { return d; }
struct Result {
  std::vector<absl::string_view> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  template <typename A, typename B>
  operator std::pair<A, B>() const {  // NOLINT
    return {A(v.size() > 0 ? v[0] : absl::string_view()), B(v.size() > 1 ? v[1] : absl::string_view())};
  }
  template <typename C>
    requires requires(C c) { c.insert(c.end(), typename C::value_type(absl::string_view())); }
  operator C() const {  // NOLINT
    C c;
    for (auto s : v) c.insert(c.end(), typename C::value_type(s));
    return c;
  }
};
}  // namespace shim_split
template <typename D>
struct MaxSplitsImpl {
  D d;
  int n;
  mutable int used = 0;
  std::pair<size_t, size_t> Find(absl::string_view s, size_t pos) const {
    if (used >= n) return {s.npos, 0};
    ++used;
    return d.Find(s, pos);
  }
};
template <typename D>
auto MaxSplits(D d, int n) {
  using T = std::decay_t<decltype(shim_split::Delim(d))>;
  return MaxSplitsImpl<T>{shim_split::Delim(d), n};
}
template <typename D, typename P = AllowEmpty>
shim_split::Result StrSplit(absl::string_view s, const D& d, P p = P()) {
  auto delim = shim_split::Delim(d);
  shim_split::Result r;
  size_t pos = 0;
  for (;;) {
    auto [at, len] = delim.Find(s, pos);
    auto piece = s.substr(pos, at == s.npos ? s.npos : at - pos);
    if (p(piece)) r.v.push_back(piece);
    if (at == s.npos) break;
    pos = at + len;
  }
  return r;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
