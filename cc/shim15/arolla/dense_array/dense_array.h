#ifndef SHIM15_DENSE_ARRAY_H_
#define SHIM15_DENSE_ARRAY_H_
#include <cstdint>
#include <vector>
#include "vsim.h"
namespace arolla {
template <typename T>
class DenseArray {
 public:
  // Checks its indices.
  class Buffer {
   public:
    size_t size() const { return v_.size(); }
    const T& operator[](int64_t i) const {
      if (i < 0 || i >= (int64_t)v_.size()) vsim::Fail("crash", "an index outside of an array");
      return v_[i];
    }
   private:
    friend class DenseArray;
    std::vector<T> v_;
  };
  Buffer values;
  int64_t size() const { return values.size(); }
  bool empty() const { return size() == 0; }
  bool present(int64_t i) const {
    if (i < 0 || i >= size()) vsim::Fail("crash", "an index outside of an array");
    return present_[i];
  }
  int64_t PresentCount() const {
    int64_t n = 0;
    for (bool b : present_) n += b;
    return n;
  }
  template <typename F>
  void ForEachPresent(F&& f) const {
    for (int64_t i = 0; i < size(); ++i) if (present_[i]) f(i, values[i]);
  }
  template <typename F>
  void ForEach(F&& f) const {
    for (int64_t i = 0; i < size(); ++i) f(i, (bool)present_[i], values[i]);
  }
  void Add(bool present, T v) {
    present_.push_back(present);
    values.v_.push_back(v);
  }
 private:
  std::vector<bool> present_;
};
}  // namespace arolla
#endif
