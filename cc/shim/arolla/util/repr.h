#ifndef SHIM_REPR_H_
#define SHIM_REPR_H_
#include <string>
namespace arolla {
struct ReprToken {
  std::string str;
  struct Precedence { signed char left = -1, right = -1; };
  Precedence precedence{};
};
template <typename T>
struct ReprTraits;
template <typename T>
std::string Repr(const T& v) {
  if constexpr (requires { ReprTraits<T>()(v).str; }) return ReprTraits<T>()(v).str;
  else return "?";
}
}  // namespace arolla
#define AROLLA_DECLARE_REPR(...)                           \
  template <>                                              \
  struct ReprTraits<__VA_ARGS__> {                         \
    ReprToken operator()(const __VA_ARGS__& value) const;  \
  }
#endif
