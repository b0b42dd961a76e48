// A StatusOr that, unlike the installed abseil, supports references.
#ifndef SHIM_STATUSOR_H_
#define SHIM_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/status/status.h"
#include "absl/log/log.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
class [[nodiscard]] StatusOr;

namespace shim_statusor {
template <typename T> struct IsStatusOr : std::false_type {};
template <typename T> struct IsStatusOr<StatusOr<T>> : std::true_type {};
template <typename T>
concept NotStatusLike = !std::is_same_v<std::decay_t<T>, Status> &&
                        !IsStatusOr<std::decay_t<T>>::value;
}  // namespace shim_statusor

template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  StatusOr(const Status& s) : status_(s) { CheckError(); }
  StatusOr(Status&& s) : status_(std::move(s)) { CheckError(); }
  StatusOr& operator=(Status s) {
    status_ = std::move(s);
    value_.reset();
    CheckError();
    return *this;
  }
  template <typename U = T>
    requires(shim_statusor::NotStatusLike<U> &&
             !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
             std::is_constructible_v<T, U &&> && std::is_convertible_v<U&&, T>)
  StatusOr(U&& u) : value_(std::forward<U>(u)) {}
  template <typename U = T>
    requires(shim_statusor::NotStatusLike<U> &&
             !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
             std::is_constructible_v<T, U &&> && !std::is_convertible_v<U&&, T>)
  explicit StatusOr(U&& u) : value_(std::forward<U>(u)) {}
  template <typename... Args>
  explicit StatusOr(std::in_place_t, Args&&... args)
      : value_(std::in_place, std::forward<Args>(args)...) {}
  template <typename U>
    requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U &&>)
  StatusOr(StatusOr<U>&& o) : status_(o.status()) {
    if (o.ok()) value_.emplace(*std::move(o));
  }
  template <typename U>
    requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>)
  StatusOr(const StatusOr<U>& o) : status_(o.status()) {
    if (o.ok()) value_.emplace(*o);
  }
  template <typename U = T>
    requires(shim_statusor::NotStatusLike<U> && std::is_constructible_v<T, U &&>)
  StatusOr& operator=(U&& u) {
    value_.emplace(std::forward<U>(u));
    status_ = OkStatus();
    return *this;
  }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  T& value() & { Check(); return *value_; }
  const T& value() const& { Check(); return *value_; }
  T&& value() && { Check(); return *std::move(value_); }
  T& operator*() & { Check(); return *value_; }
  const T& operator*() const& { Check(); return *value_; }
  T&& operator*() && { Check(); return *std::move(value_); }
  T* operator->() { Check(); return &*value_; }
  const T* operator->() const { Check(); return &*value_; }
  template <typename U>
  T value_or(U&& u) const& { return ok() ? *value_ : static_cast<T>(std::forward<U>(u)); }
  void IgnoreError() const {}
 private:
  void Check() const {
    if (!ok()) ::vsim::Fail("fatal", "access to the value of an error StatusOr: " + status_.ToString());
  }
  void CheckError() const {
    if (status_.ok()) ::vsim::Fail("fatal", "StatusOr made from an OK status");
  }
  Status status_;
  std::optional<T> value_;
};

template <typename T>
class [[nodiscard]] StatusOr<T&> {
 public:
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(std::move(s)) {}
  StatusOr(T& t) : value_(&t) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  T& value() const { Check(); return *value_; }
  T& operator*() const { Check(); return *value_; }
  T* operator->() const { Check(); return value_; }
 private:
  void Check() const {
    if (!ok()) ::vsim::Fail("fatal", "access to the value of an error StatusOr");
  }
  Status status_;
  T* value_ = nullptr;
};
template <typename T>
bool operator==(const StatusOr<T>& a, const StatusOr<T>& b) {
  return a.ok() == b.ok() && (a.ok() ? *a == *b : a.status() == b.status());
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
