#ifndef SHIM_EXPR_OPERATOR_H_
#define SHIM_EXPR_OPERATOR_H_
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include "absl/functional/any_invocable.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/fingerprint.h"
namespace arolla::expr {
// An operator is a function; for operators that are compiled there is also the
// type of its result for given types (null: it does not accept those).
class ExprOperator {
 public:
  using Fn = absl::AnyInvocable<absl::StatusOr<TypedValue>(absl::Span<const TypedRef>) const>;
  using TypeFn = QTypePtr (*)(absl::Span<const QTypePtr>);
  explicit ExprOperator(Fn fn, std::string name = "op", TypeFn type = nullptr, bool non_deterministic = false)
      : fn(std::move(fn)), type(type), non_deterministic(non_deterministic), name_(std::move(name)) {}
  virtual ~ExprOperator() = default;
  const Fn fn;
  const TypeFn type;
  const bool non_deterministic;  // the last parameter is a token
  const std::string& display_name() const { return name_; }
  Fingerprint fingerprint() const { return Fingerprint{std::hash<std::string>()(name_)}; }
  absl::StatusOr<ExprOperatorSignaturePtr> GetSignature() const {
    auto s = std::make_shared<ExprOperatorSignature>();
    s->parameters.push_back({"args", ExprOperatorSignature::Parameter::Kind::kVariadicPositional});
    s->token = non_deterministic;
    return ExprOperatorSignaturePtr(std::move(s));
  }
 private:
  std::string name_;
};
using ExprOperatorPtr = std::shared_ptr<const ExprOperator>;
}  // namespace arolla::expr
namespace arolla {
template <> struct QTypeTraits<expr::ExprOperatorPtr> { static QTypePtr type(); };
}  // namespace arolla
#endif
