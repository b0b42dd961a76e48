#ifndef SHIM_DOWNCAST_H_
#define SHIM_DOWNCAST_H_
#include <type_traits>
#include <typeinfo>
namespace arolla {
template <typename T, typename S>
T fast_dynamic_downcast_final(S* p) {
  using D = std::remove_pointer_t<T>;
  static_assert(std::is_final_v<std::remove_cv_t<D>>);
  if (p != nullptr && typeid(*p) == typeid(D)) return static_cast<T>(p);
  return nullptr;
}
}  // namespace arolla
#endif
