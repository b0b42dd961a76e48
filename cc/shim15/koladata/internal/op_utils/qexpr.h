#ifndef SHIM15_QEXPR_H_
#define SHIM15_QEXPR_H_
#include <string>
#include "absl/strings/string_view.h"
#include "arolla/qexpr/operators.h"
namespace koladata {
template <typename F>
std::unique_ptr<arolla::BoundOperator> MakeBoundOperator(absl::string_view, F f) {
  return std::make_unique<arolla::BoundOperator>(std::move(f));
}
}  // namespace koladata
#endif
