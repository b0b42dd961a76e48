#ifndef SHIM_UNIT_H_
#define SHIM_UNIT_H_
namespace arolla {
struct Unit { bool operator==(const Unit&) const { return true; } };
constexpr Unit kUnit{};
}  // namespace arolla
#endif
