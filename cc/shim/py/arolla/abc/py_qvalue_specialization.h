#ifndef SHIM_PY_QVALUE_SPEC_H_
#define SHIM_PY_QVALUE_SPEC_H_
#include "py/arolla/abc/py_qvalue.h"
#endif
