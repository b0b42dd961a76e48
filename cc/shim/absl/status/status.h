#ifndef SHIM_STATUS_H_
#define SHIM_STATUS_H_
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4,
  kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8,
  kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16
};
// What a status carries besides its message.
struct ShimPayload {
  virtual ~ShimPayload() = default;
};
class ABSL_MUST_USE_RESULT Status {
 public:
  Status() = default;
  Status(StatusCode c, absl::string_view m) {
    if (c != StatusCode::kOk) rep_ = std::make_shared<const Rep>(Rep{c, std::string(m)});
  }
  Status(const Status&) = default;
  // `o` may be a part of what this owns.
  Status& operator=(const Status& o) {
    bool moved = o.moved_;
    rep_ = std::shared_ptr<const Rep>(o.rep_);
    moved_ = moved;
    return *this;
  }
  // A moved-from status is an error, as in abseil.
  Status(Status&& o) noexcept : rep_(std::move(o.rep_)) { if (rep_) o.moved_ = true; else moved_ = o.moved_; }
  Status& operator=(Status&& o) noexcept {
    if (this != &o) {
      rep_ = std::move(o.rep_);
      moved_ = o.moved_;
      if (rep_) o.moved_ = true;
    }
    return *this;
  }
  bool ok() const { return rep_ == nullptr && !moved_; }
  StatusCode code() const { return rep_ ? rep_->code : moved_ ? StatusCode::kInternal : StatusCode::kOk; }
  absl::string_view message() const { return rep_ ? absl::string_view(rep_->message) : moved_ ? "Status accessed after move." : ""; }
  std::string ToString() const { return ok() ? "OK" : "E" + std::to_string((int)code()) + ": " + std::string(message()); }
  void IgnoreError() const {}
  Status(StatusCode c, absl::string_view m, std::shared_ptr<const ShimPayload> p) {
    rep_ = std::make_shared<const Rep>(Rep{c, std::string(m), std::move(p)});
  }
  const ShimPayload* payload() const { return rep_ ? rep_->payload.get() : nullptr; }
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) {
    return a.code() == b.code() && a.message() == b.message();
  }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
 private:
  struct Rep {
    StatusCode code;
    std::string message;
    std::shared_ptr<const ShimPayload> payload = nullptr;
  };
  std::shared_ptr<const Rep> rep_;
  bool moved_ = false;
};
inline Status OkStatus() { return Status(); }
#define SHIM_ERR(name)                                                                     \
  inline Status name##Error(absl::string_view m) { return Status(StatusCode::k##name, m); } \
  inline bool Is##name(const Status& s) { return s.code() == StatusCode::k##name; }
SHIM_ERR(Cancelled) SHIM_ERR(Unknown) SHIM_ERR(InvalidArgument) SHIM_ERR(DeadlineExceeded)
SHIM_ERR(NotFound) SHIM_ERR(AlreadyExists) SHIM_ERR(PermissionDenied) SHIM_ERR(ResourceExhausted)
SHIM_ERR(FailedPrecondition) SHIM_ERR(Aborted) SHIM_ERR(OutOfRange) SHIM_ERR(Unimplemented)
SHIM_ERR(Internal) SHIM_ERR(Unavailable) SHIM_ERR(DataLoss) SHIM_ERR(Unauthenticated)
ABSL_NAMESPACE_END
}  // namespace absl
#endif
