#ifndef SHIM_ABSL_CHECK_H_
#define SHIM_ABSL_CHECK_H_
#include "absl/log/check.h"
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define ABSL_CHECK_NE CHECK_NE
#define ABSL_CHECK_LE CHECK_LE
#define ABSL_CHECK_LT CHECK_LT
#define ABSL_CHECK_GE CHECK_GE
#define ABSL_CHECK_GT CHECK_GT
#define ABSL_CHECK_OK CHECK_OK
#define ABSL_DCHECK DCHECK
#define ABSL_DCHECK_EQ DCHECK_EQ
#define ABSL_DCHECK_NE DCHECK_NE
#define ABSL_DCHECK_LE DCHECK_LE
#define ABSL_DCHECK_LT DCHECK_LT
#define ABSL_DCHECK_GE DCHECK_GE
#define ABSL_DCHECK_GT DCHECK_GT
#define ABSL_DCHECK_OK DCHECK_OK
#endif
