#ifndef SHIM_STATUS_MACROS_H_
#define SHIM_STATUS_MACROS_H_
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
namespace shim_macros {
class StatusBuilder {
 public:
  explicit StatusBuilder(absl::Status s) : s_(std::move(s)) {}
  template <typename T>
  StatusBuilder&& operator<<(const T& v) && {
    os_ << v;
    return std::move(*this);
  }
  absl::Status Build() && {
    std::string extra = os_.str();
    if (s_.ok() || extra.empty()) return std::move(s_);
    return absl::Status(s_.code(), s_.message().empty()
        ? extra : absl::StrCat(s_.message(), "; ", extra));
  }
  operator absl::Status() && { return std::move(*this).Build(); }
  template <typename T>
  operator absl::StatusOr<T>() && { return std::move(*this).Build(); }
  template <typename F>
  auto With(F&& f) && { return std::forward<F>(f)(std::move(*this).Build()); }
 private:
  absl::Status s_;
  std::ostringstream os_;
};
inline absl::Status ToStatus(const absl::Status& s) { return s; }
inline absl::Status ToStatus(absl::Status&& s) { return std::move(s); }
inline absl::Status ToStatus(StatusBuilder&& s) { return std::move(s).Build(); }
template <typename T>
absl::Status ToStatus(const absl::StatusOr<T>& s) { return s.status(); }
// Converts to whatever the enclosing function returns.
struct Err {
  absl::Status s;
  operator absl::Status() && { return std::move(s); }
  template <typename T>
  operator absl::StatusOr<T>() && { return std::move(s); }
};
}  // namespace shim_macros
#define RETURN_IF_ERROR(expr)                                              \
  switch (0) case 0: default:                                              \
  if (auto shim_status = ::shim_macros::ToStatus(expr); shim_status.ok()) { \
  } else return ::shim_macros::StatusBuilder(std::move(shim_status))
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
// Without parentheses around it.
#define SHIM_BARE(x) SHIM_BARE_2(SHIM_ISH x)
#define SHIM_BARE_2(...) SHIM_BARE_3(__VA_ARGS__)
#define SHIM_BARE_3(...) SHIM_VAN##__VA_ARGS__
#define SHIM_ISH(...) SHIM_ISH __VA_ARGS__
#define SHIM_VANSHIM_ISH
#define SHIM_ASSIGN_2(lhs, expr, tmp)                                      \
  auto tmp = (expr);                                                       \
  if (!tmp.ok()) return ::shim_macros::Err{std::move(tmp).status()};        \
  SHIM_BARE(lhs) = *std::move(tmp)
#define SHIM_ASSIGN_3(lhs, expr, ret, tmp)                                 \
  auto tmp = (expr);                                                       \
  if (!tmp.ok()) {                                                         \
    ::shim_macros::StatusBuilderForAssign _(std::move(tmp).status());       \
    (void)_;                                                               \
    return ret;                                                            \
  }                                                                        \
  SHIM_BARE(lhs) = *std::move(tmp)
namespace shim_macros {
class StatusBuilderForAssign {
 public:
  explicit StatusBuilderForAssign(absl::Status s) : s_(std::move(s)) {}
  template <typename T>
  StatusBuilder operator<<(const T& v) {
    return StatusBuilder(s_) << v;
  }
  operator absl::Status() const& { return s_; }
  operator absl::Status() && { return std::move(s_); }
  template <typename T>
  operator absl::StatusOr<T>() const { return s_; }
 private:
  absl::Status s_;
};
}  // namespace shim_macros
#define SHIM_ASSIGN_PICK(a, b, c, name, ...) name
#define ASSIGN_OR_RETURN(...)                                                   \
  SHIM_ASSIGN_PICK(__VA_ARGS__, SHIM_ASSIGN_OR_RETURN_3, SHIM_ASSIGN_OR_RETURN_2, ) \
  (__VA_ARGS__)
#define SHIM_ASSIGN_OR_RETURN_2(lhs, expr) \
  SHIM_ASSIGN_2(lhs, expr, SHIM_CAT(shim_tmp_, __LINE__))
#define SHIM_ASSIGN_OR_RETURN_3(lhs, expr, ret) \
  SHIM_ASSIGN_3(lhs, expr, ret, SHIM_CAT(shim_tmp_, __LINE__))
#endif
