#ifndef SHIM_TYPED_SLOT_H_
#define SHIM_TYPED_SLOT_H_
#include "arolla/memory/frame.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
class TypedSlot {
 public:
  template <typename T>
  using Slot = arolla::Slot<T>;
  TypedSlot(QTypePtr t, size_t at) : type_(t), at_(at) {}
  QTypePtr GetType() const { return type_; }
  size_t byte_offset() const { return at_; }
  int64_t SubSlotCount() const { return type_->type_fields().size(); }
  TypedSlot SubSlot(size_t i) const {
    const auto& f = type_->type_fields().at(i);
    return TypedSlot(f.type, at_ + f.offset);
  }
  template <typename T>
  arolla::Slot<T> UnsafeToSlot() const { return arolla::Slot<T>{at_}; }
 private:
  QTypePtr type_;
  size_t at_;
};
}  // namespace arolla
#endif
