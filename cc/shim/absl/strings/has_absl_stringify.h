#ifndef SHIM_HAS_ABSL_STRINGIFY_H_
#define SHIM_HAS_ABSL_STRINGIFY_H_
#include "absl/strings/str_cat.h"
#endif
