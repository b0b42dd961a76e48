#ifndef SHIM_NULLABILITY_H_
#define SHIM_NULLABILITY_H_
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
