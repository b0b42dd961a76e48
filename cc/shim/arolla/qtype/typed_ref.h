#ifndef SHIM_TYPED_REF_H_
#define SHIM_TYPED_REF_H_
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
namespace arolla {
class TypedValue;
class TypedRef {
 public:
  TypedRef(QTypePtr type, const void* ptr) : type_(type), ptr_(ptr) {}
  static TypedRef UnsafeFromRawPointer(QTypePtr type, const void* p) { return TypedRef(type, p); }
  template <typename T>
  static TypedRef FromValue(const T& v) { return TypedRef(GetQType<T>(), &v); }
  template <typename S, typename F>
  static TypedRef FromSlot(S s, F f) { return TypedRef(s.GetType(), f.At(s.byte_offset())); }
  template <typename S, typename F>
  absl::Status CopyToSlot(S s, F f) const {
    if (s.GetType() != type_) return absl::InvalidArgumentError("slot type mismatch");
    type_->UnsafeCopy(ptr_, f.At(s.byte_offset()));
    return absl::OkStatus();
  }
  QTypePtr GetType() const { return type_; }
  const void* GetRawPointer() const { return ptr_; }
  template <typename T>
  const T& UnsafeAs() const { return *static_cast<const T*>(ptr_); }
  template <typename T>
  absl::StatusOr<const T&> As() const {
    if (type_->type_id() == nullptr || *type_->type_id() != typeid(T)) {
      return absl::FailedPreconditionError(absl::StrCat("type mismatch: ", type_->name()));
    }
    return UnsafeAs<T>();
  }
  size_t GetFieldCount() const { return type_->type_fields().size(); }
  TypedRef GetField(size_t i) const {
    const auto& f = type_->type_fields()[i];
    return TypedRef(f.type, static_cast<const char*>(ptr_) + f.offset);
  }
  std::string Repr() const { return std::string(type_->name()); }
  Fingerprint GetFingerprint() const { return Fingerprint{1}; }
 private:
  QTypePtr type_;
  const void* ptr_;
};
}  // namespace arolla
#endif
