#ifndef SHIM15_OPTIONAL_VALUE_H_
#define SHIM15_OPTIONAL_VALUE_H_
namespace arolla {
template <typename T>
struct OptionalValue {
  bool present = false;
  T value;
};
}  // namespace arolla
#endif
