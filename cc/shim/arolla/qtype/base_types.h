#ifndef SHIM_BASE_TYPES_H_
#define SHIM_BASE_TYPES_H_
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#endif
