#ifndef SHIM15_EVAL_CONTEXT_H_
#define SHIM15_EVAL_CONTEXT_H_
#include "arolla/memory/frame.h"
namespace arolla {
class EvaluationContext {};
}  // namespace arolla
#endif
