// A frame is raw memory with the layout of a tuple.
#ifndef SHIM_FRAME_H_
#define SHIM_FRAME_H_
#include "arolla/qtype/qtype.h"
namespace arolla {
template <typename T>
struct Slot {
  size_t at;
};
class FramePtr {
 public:
  explicit FramePtr(void* base) : base_(static_cast<char*>(base)) {}
  template <typename T>
  const T& Get(Slot<T> s) const { return *reinterpret_cast<const T*>(base_ + s.at); }
  template <typename T>
  T* GetMutable(Slot<T> s) const { return reinterpret_cast<T*>(base_ + s.at); }
  template <typename T, typename V>
  void Set(Slot<T> s, V&& v) const { *reinterpret_cast<T*>(base_ + s.at) = std::forward<V>(v); }
  void* At(size_t at) const { return base_ + at; }
 private:
  char* base_;
};
using ConstFramePtr = FramePtr;
}  // namespace arolla
#endif
