#ifndef SHIM_MEMORY_H_
#define SHIM_MEMORY_H_
#include <cstddef>
#include <memory>
#include <new>
namespace arolla {
struct AlignedDelete {
  std::align_val_t align{1};
  void operator()(void* p) const { ::operator delete(p, align); }
};
using AlignedPtr = std::unique_ptr<void, AlignedDelete>;
inline AlignedPtr AlignedAlloc(std::align_val_t align, size_t size) {
  return AlignedPtr(::operator new(size ? size : 1, align), AlignedDelete{align});
}
}  // namespace arolla
#endif
