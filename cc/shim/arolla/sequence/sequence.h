#ifndef SHIM_SEQUENCE_H_
#define SHIM_SEQUENCE_H_
#include <memory>
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
namespace arolla {
class Sequence {
 public:
  Sequence() = default;
  Sequence(QTypePtr t, std::vector<std::unique_ptr<TypedValue>> v)
      : t_(t), v_(std::make_shared<std::vector<std::unique_ptr<TypedValue>>>(std::move(v))) {}
  QTypePtr value_qtype() const { return t_; }
  size_t size() const { return v_ ? v_->size() : 0; }
  TypedRef GetRef(size_t i) const { return v_->at(i)->AsRef(); }
 private:
  QTypePtr t_ = nullptr;
  std::shared_ptr<std::vector<std::unique_ptr<TypedValue>>> v_;
};
class MutableSequence {
 public:
  static absl::StatusOr<MutableSequence> Make(QTypePtr t, size_t n) { return MutableSequence(t, n); }
  QTypePtr value_qtype() const { return t_; }
  size_t size() const { return v_.size(); }
  void UnsafeSetRef(size_t i, TypedRef r) { v_.at(i) = std::make_unique<TypedValue>(r); }
  Sequence Finish() && { return Sequence(t_, std::move(v_)); }
 private:
  MutableSequence(QTypePtr t, size_t n) : t_(t), v_(n) {}
  QTypePtr t_;
  std::vector<std::unique_ptr<TypedValue>> v_;
};
}  // namespace arolla
#endif
