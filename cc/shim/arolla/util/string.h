#ifndef SHIM_STRING_H_
#define SHIM_STRING_H_
#include <string>
namespace arolla {
inline std::string Truncate(std::string s, size_t n) { return s.size() <= n ? s : s.substr(0, n - 3) + "..."; }
}  // namespace arolla
#endif
