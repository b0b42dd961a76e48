#ifndef SHIM_REFCOUNT_PTR_H_
#define SHIM_REFCOUNT_PTR_H_
#include <atomic>
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace arolla {
class RefcountedBase {
 public:
  RefcountedBase() = default;
  RefcountedBase(const RefcountedBase&) = delete;
  RefcountedBase& operator=(const RefcountedBase&) = delete;
 private:
  mutable std::atomic<int> refcount_ = 0;
  template <typename T>
  friend class RefcountPtr;
};
template <typename T>
class RefcountPtr {
 public:
  template <typename... Args>
  static RefcountPtr Make(Args&&... args) { return RefcountPtr(new T(std::forward<Args>(args)...)); }
  static RefcountPtr Own(std::unique_ptr<T>&& p) { return RefcountPtr(p.release()); }
  static RefcountPtr NewRef(T* p) { return RefcountPtr(p); }
  constexpr RefcountPtr() = default;
  constexpr RefcountPtr(std::nullptr_t) {}  // NOLINT
  RefcountPtr(const RefcountPtr& o) : p_(o.p_) { Ref(); }
  RefcountPtr(RefcountPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  RefcountPtr(const RefcountPtr<U>& o) : p_(o.get()) { Ref(); }  // NOLINT
  RefcountPtr& operator=(std::nullptr_t) { reset(); return *this; }
  RefcountPtr& operator=(const RefcountPtr& o) {
    RefcountPtr c(o);
    std::swap(p_, c.p_);
    return *this;
  }
  RefcountPtr& operator=(RefcountPtr&& o) noexcept {
    RefcountPtr c(std::move(o));
    std::swap(p_, c.p_);
    return *this;
  }
  ~RefcountPtr() { reset(); }
  void reset() noexcept {
    T* p = std::exchange(p_, nullptr);
    if (p && p->refcount_.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p;
  }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ == b.p_; }
  friend bool operator==(const RefcountPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
 private:
  explicit RefcountPtr(T* p) : p_(p) { Ref(); }
  void Ref() { if (p_) p_->refcount_.fetch_add(1, std::memory_order_relaxed); }
  T* p_ = nullptr;
};
}  // namespace arolla
#endif
