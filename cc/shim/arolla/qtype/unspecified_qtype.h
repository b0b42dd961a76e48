#ifndef SHIM_UNSPECIFIED_QTYPE_H_
#define SHIM_UNSPECIFIED_QTYPE_H_
#include "arolla/qtype/typed_value.h"
namespace arolla {
QTypePtr GetUnspecifiedQType();
const TypedValue& GetUnspecifiedQValue();
}  // namespace arolla
#endif
