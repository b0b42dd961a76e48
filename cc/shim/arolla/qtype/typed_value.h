#ifndef SHIM_TYPED_VALUE_H_
#define SHIM_TYPED_VALUE_H_
#include <atomic>
#include <memory>
#include <new>
#include <utility>
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_ref.h"
namespace arolla {
class TypedValue {
  struct Cell {
    std::atomic<int> refs{1};
    QTypePtr type;
    void* data;
  };
 public:
  explicit TypedValue(TypedRef r) : c_(New(r.GetType())) {
    r.GetType()->UnsafeCopy(r.GetRawPointer(), c_->data);
  }
  TypedValue(const TypedValue& o) : c_(o.c_) { if (c_) c_->refs.fetch_add(1, std::memory_order_relaxed); }
  TypedValue(TypedValue&& o) noexcept : c_(std::exchange(o.c_, nullptr)) {}
  TypedValue& operator=(const TypedValue& o) {
    TypedValue t(o);
    std::swap(c_, t.c_);
    return *this;
  }
  TypedValue& operator=(TypedValue&& o) noexcept {
    if (this != &o) {
      Drop();
      c_ = std::exchange(o.c_, nullptr);
    }
    return *this;
  }
  ~TypedValue() { Drop(); }
  template <typename T>
  static TypedValue FromValue(T&& v) {
    return TypedValue(TypedRef::FromValue(v));
  }
  template <typename T>
  static absl::StatusOr<TypedValue> FromValueWithQType(T&& v, QTypePtr type) {
    using D = std::decay_t<T>;
    if (type->type_id() == nullptr || *type->type_id() != typeid(D)) {
      return absl::InvalidArgumentError(absl::StrCat("type mismatch: ", type->name()));
    }
    D value(std::forward<T>(v));
    return TypedValue(TypedRef::UnsafeFromRawPointer(type, &value));
  }
  template <typename S, typename F>
  static TypedValue FromSlot(S s, F f) { return TypedValue(TypedRef::FromSlot(s, f)); }
  template <typename S, typename F>
  absl::Status CopyToSlot(S s, F f) const { return AsRef().CopyToSlot(s, f); }
  QTypePtr GetType() const { return c_->type; }
  const void* GetRawPointer() const { return c_->data; }
  TypedRef AsRef() const { return TypedRef(c_->type, c_->data); }
  template <typename T>
  const T& UnsafeAs() const { return AsRef().UnsafeAs<T>(); }
  template <typename T>
  absl::StatusOr<const T&> As() const { return AsRef().As<T>(); }
  size_t GetFieldCount() const { return AsRef().GetFieldCount(); }
  TypedRef GetField(size_t i) const { return AsRef().GetField(i); }
  Fingerprint GetFingerprint() const { return Fingerprint{1}; }
  std::string Repr() const { return AsRef().Repr(); }
 private:
  static Cell* New(QTypePtr t) {
    Cell* c = new Cell;
    c->type = t;
    size_t n = t->ops().size;
    c->data = ::operator new(n ? n : 1, std::align_val_t{t->ops().align});
    t->UnsafeInit(c->data);
    return c;
  }
  void Drop() {
    if (c_ && c_->refs.fetch_sub(1, std::memory_order_acq_rel) == 1) {
      c_->type->UnsafeDestroy(c_->data);
      ::operator delete(c_->data, std::align_val_t{c_->type->ops().align});
      delete c_;
    }
    c_ = nullptr;
  }
  Cell* c_;
};
}  // namespace arolla
#endif
