#ifndef SHIM_OP_SIGNATURE_H_
#define SHIM_OP_SIGNATURE_H_
#include <memory>
#include <string>
#include <vector>
namespace arolla::expr {
struct ExprOperatorSignature {
  struct Parameter {
    enum class Kind { kPositionalOrKeyword, kVariadicPositional };
    std::string name;
    Kind kind = Kind::kPositionalOrKeyword;
  };
  std::vector<Parameter> parameters;
  bool token = false;  // binding adds a token
};
using ExprOperatorSignaturePtr = std::shared_ptr<const ExprOperatorSignature>;
inline bool HasVariadicParameter(const ExprOperatorSignature& s) {
  return !s.parameters.empty() && s.parameters.back().kind == ExprOperatorSignature::Parameter::Kind::kVariadicPositional;
}
}  // namespace arolla::expr
#endif
