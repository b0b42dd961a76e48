#ifndef SHIM_SEQUENCE_QTYPE_H_
#define SHIM_SEQUENCE_QTYPE_H_
#include "arolla/qtype/qtype.h"
namespace arolla {
QTypePtr GetSequenceQType(QTypePtr value_qtype);
}  // namespace arolla
#endif
