// A frame is an array of slices.
#ifndef SHIM15_FRAME_H_
#define SHIM15_FRAME_H_
#include <vector>
#include "arolla/qtype/qtype.h"
#include "koladata/data_slice.h"
namespace arolla {
template <typename T>
struct Slot {
  size_t at;
};
class TypedSlot {
 public:
  TypedSlot(QTypePtr t, size_t at, std::vector<TypedSlot> subs = {}) : type_(t), at_(at), subs_(std::move(subs)) {}
  QTypePtr GetType() const { return type_; }
  size_t SubSlotCount() const { return subs_.size(); }
  const TypedSlot& SubSlot(size_t i) const { return subs_.at(i); }
  template <typename T>
  Slot<T> UnsafeToSlot() const { return Slot<T>{at_}; }
  template <typename F>
  void CopyTo(F from, const TypedSlot& to, F into) const { into.Set(Slot<koladata::DataSlice>{to.at_}, from.Get(Slot<koladata::DataSlice>{at_})); }
 private:
  QTypePtr type_;
  size_t at_;
  std::vector<TypedSlot> subs_;
};
class FramePtr {
 public:
  explicit FramePtr(std::vector<koladata::DataSlice>* f) : f_(f) {}
  const koladata::DataSlice& Get(Slot<koladata::DataSlice> s) const { return f_->at(s.at); }
  koladata::DataSlice* GetMutable(Slot<koladata::DataSlice> s) const { return &f_->at(s.at); }
  void Set(Slot<koladata::DataSlice> s, koladata::DataSlice v) const { f_->at(s.at) = std::move(v); }
 private:
  std::vector<koladata::DataSlice>* f_;
};
}  // namespace arolla
#endif
