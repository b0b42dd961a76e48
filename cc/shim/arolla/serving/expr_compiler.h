// Compiles an expression: infers the types and keeps the expression, which the
// result evaluates with inputs of exactly the types it was compiled for.
#ifndef SHIM_EXPR_COMPILER_H_
#define SHIM_EXPR_COMPILER_H_
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/expr/expr.h"
#include "arolla/io/typed_refs_input_loader.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
namespace arolla {
namespace shim_compiler {
using Fn = std::function<absl::StatusOr<TypedValue>(absl::Span<const TypedRef>)>;
absl::StatusOr<Fn> Compile(expr::ExprNodePtr e, TypedRefsInputs inputs, bool thread_safe);
}  // namespace shim_compiler
template <typename Input, typename Output>
class ExprCompiler {
 public:
  ExprCompiler& SetAlwaysCloneThreadSafetyPolicy() { return Safe(true); }
  ExprCompiler& SetPoolThreadSafetyPolicy() { return Safe(true); }
  ExprCompiler& SetThreadUnsafe_I_SWEAR_TO_COPY_MODEL_FUNCTION_BEFORE_CALL() { return Safe(false); }
  ExprCompiler& SetInputLoader(TypedRefsInputs i) {
    inputs_ = std::move(i);
    return *this;
  }
  ExprCompiler& EnableExprStackTrace(bool) { return *this; }
  ExprCompiler& VerboseRuntimeErrors(bool) { return *this; }
  using Fn = std::function<absl::StatusOr<Output>(absl::Span<const TypedRef>)>;
  absl::StatusOr<Fn> Compile(const expr::ExprNodePtr& e) const { return Typed(shim_compiler::Compile(e, inputs_, safe_)); }
  absl::StatusOr<Fn> CompileOperator(const expr::ExprOperatorPtr& op, absl::Span<const QTypePtr> types) const {
    std::vector<expr::ExprNodePtr> deps;
    TypedRefsInputs in;
    for (size_t i = 0; i < types.size(); ++i) {
      std::string name = std::to_string(i);
      deps.push_back(expr::Leaf(name));
      in.emplace_back(name, types[i]);
    }
    return Typed(shim_compiler::Compile(*expr::MakeOpNode(op, std::move(deps)), std::move(in), safe_));
  }
 private:
  static absl::StatusOr<Fn> Typed(absl::StatusOr<shim_compiler::Fn> f) {
    if constexpr (std::is_same_v<Output, TypedValue>) {
      return f;
    } else {
      if (!f.ok()) return f.status();
      return Fn([f = *std::move(f)](absl::Span<const TypedRef> a) -> absl::StatusOr<Output> {
        auto r = f(a);
        if (!r.ok()) return r.status();
        if (r->GetType() != GetQType<Output>()) return absl::InvalidArgumentError("unexpected output type");
        return r->template UnsafeAs<Output>();
      });
    }
  }
  ExprCompiler& Safe(bool s) {
    safe_ = s;
    return *this;
  }
  TypedRefsInputs inputs_;
  bool safe_ = true;
};
}  // namespace arolla
#endif
