#ifndef SHIM_VERBOSE_ERROR_H_
#define SHIM_VERBOSE_ERROR_H_
#include <string>
namespace arolla::expr {
struct VerboseRuntimeError {
  std::string operator_name;
};
}  // namespace arolla::expr
#endif
