#ifndef SHIM_NO_DESTRUCTOR_H_
#define SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  // Also for a private constructor, whose class has this one as a friend.
  template <typename... Args,
            typename = std::enable_if_t<!std::is_same_v<void(std::decay_t<Args>&...), void(NoDestructor&)>>>
  explicit NoDestructor(Args&&... args) { new (buf_) T(std::forward<Args>(args)...); }
  explicit NoDestructor(const T& x) { new (buf_) T(x); }
  explicit NoDestructor(T&& x) { new (buf_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  T* get() { return std::launder(reinterpret_cast<T*>(buf_)); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(buf_)); }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }
 private:
  alignas(T) unsigned char buf_[sizeof(T)];
};
template <typename T>
NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
