#ifndef SHIM_ABSL_LOG_H_
#define SHIM_ABSL_LOG_H_
#include "absl/log/log.h"
#define ABSL_LOG LOG
#endif
