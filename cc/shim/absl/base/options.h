#include_next "absl/base/options.h"
#undef ABSL_OPTION_USE_STD_ANY
#undef ABSL_OPTION_USE_STD_OPTIONAL
#undef ABSL_OPTION_USE_STD_STRING_VIEW
#undef ABSL_OPTION_USE_STD_VARIANT
#define ABSL_OPTION_USE_STD_ANY 1
#define ABSL_OPTION_USE_STD_OPTIONAL 1
#define ABSL_OPTION_USE_STD_STRING_VIEW 1
#define ABSL_OPTION_USE_STD_VARIANT 1
