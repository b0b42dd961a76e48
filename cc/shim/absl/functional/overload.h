#ifndef SHIM_OVERLOAD_H_
#define SHIM_OVERLOAD_H_
#include <utility>
namespace absl {
template <typename... T>
struct Overload : T... {
  explicit Overload(T... t) : T(std::move(t))... {}
  using T::operator()...;
};
template <typename... T>
Overload(T...) -> Overload<T...>;
}  // namespace absl
#endif
