#ifndef SHIM_INPUT_LOADER_H_
#define SHIM_INPUT_LOADER_H_
#include <string>
#include <utility>
#include <vector>
#include "arolla/qtype/qtype.h"
namespace arolla {
using TypedRefsInputs = std::vector<std::pair<std::string, QTypePtr>>;
inline TypedRefsInputs CreateTypedRefsInputLoader(TypedRefsInputs args) { return args; }
}  // namespace arolla
#endif
