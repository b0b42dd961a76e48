// Values, operators and expressions for the scenarios that evaluate them, and what
// evaluating them gives.
#ifndef SCEN15_OPS15_H_
#define SCEN15_OPS15_H_
#include <algorithm>
#include <map>
#include <optional>
#include <set>

#include "arolla/expr/eval/verbose_runtime_error.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/serving/expr_compiler.h"
#include "arolla/util/cancellation.h"
#include "arolla/util/permanent_event.h"
#include "arolla/util/status.h"
#include "koladata/expr/expr_operators.h"
#include "koladata/expr/non_determinism.h"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/internal/non_deterministic_token.h"
#include "py/arolla/abc/py_expr.h"
#include "py/arolla/abc/py_operator.h"
#include "world15.h"
namespace world15::ops15 {
using arolla::GetQType;
using arolla::QTypePtr;
using arolla::Text;
using arolla::TypedRef;
using arolla::TypedValue;
using arolla::expr::ExprNode;
using arolla::expr::ExprNodePtr;
using arolla::expr::ExprOperator;
using arolla::expr::ExprOperatorPtr;
using koladata::functor::parallel::t_has_executor;
using koladata::internal::NonDeterministicToken;
using minipy::Exception;

// ---- values ----
enum Kind { kInt, kText, kBox, kToken, kBad };
struct Val {
  Kind kind = kInt;
  int64_t n = 0;
  std::string s;
};
QTypePtr TypeFor(Kind k);
Kind KindFor(QTypePtr t);
TypedValue Make(const Val& v);
Val Read(TypedRef r);
std::string Show(const Val& v);
bool Same(const Val& a, const Val& b);
int64_t IdOf(const Val& v);

// ---- operators ----
extern thread_local int t_rands;  // evaluations of `rand` by the thread
struct OtherPayload {};
using Types = absl::Span<const QTypePtr>;
using Refs = absl::Span<const TypedRef>;
std::string FailMessage(int64_t n);
extern PyObject* (*g_eval_nested)(int64_t n);  // add(I.x, 1) in Python
struct Ops {
  ExprOperatorPtr input, token, add, box, unbox, fail, pyfail, executor, wait, rand, call;
  std::map<std::string, ExprOperatorPtr> by_name;
};
const Ops& TheOps();

// ---- expressions ----
struct Tree {
  enum { kLit, kI, kV, kHole, kLeaf, kUnknown, kOp } what = kLit;
  Val lit;
  std::string name;  // of an input, or of the operator
  int64_t seed = 0;  // of a `rand`
  std::vector<Tree> kids;
};
ExprNodePtr Lit(const Val& v);
ExprNodePtr Node(ExprOperatorPtr op, std::vector<ExprNodePtr> deps, QTypePtr t = nullptr);
ExprNodePtr Token(int64_t seed);
ExprNodePtr Build(const Tree& t);
inline constexpr const char* kNames[] = {"x", "y", "z"};
Tree Grow(int depth);

// ---- the reference ----
using Inputs = std::vector<std::pair<std::string, Val>>;
struct Expect {
  bool ok = true;
  Val v;
  bool python = false;               // the exception itself
  std::string message;               // of a runtime error
  std::vector<std::string> rejects;  // the errors of which one is due: parts of messages
  int rands = 0;
};
struct Caller {
  bool executor = false, signals = false;
};
const Val* Given(const Inputs& in, const std::string& name);
void Static(const Tree& t, std::set<std::string>& i, std::set<std::string>& v, std::vector<std::string>& rejects, std::set<std::string>& holes);
Kind Infer(const Tree& t, const Inputs& i, const Inputs& v);
// False: the expectation is an error.
bool Compute(const Tree& t, const Inputs& i, const Inputs& v, const Caller& c, Expect& e, Val& out);
std::string Join(const std::set<std::string>& s);
Expect Reference(const Tree& t, const Inputs& i, const Inputs& v, const Caller& c);

// ---- judging ----
void CheckMessage(const Expect& e, absl::string_view m, const char* what);
void CheckValue(const Expect& e, TypedRef r, const char* what);
void CheckRands(const Expect& e, int before, const char* what);
void Check(const Expect& e, const minipy::Result& r, int rands, const char* what);
void CheckTypeError(const minipy::Result& r, const char* what);
Val AnyVal();
Inputs AnyInputs(bool repeat);
}  // namespace world15::ops15
#endif
