#ifndef SHIM_CHECK_H_
#define SHIM_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
namespace shim_log {
inline const ::absl::Status& AsStatus(const ::absl::Status& s) { return s; }
template <typename T>
auto AsStatus(const T& s) -> decltype(s.status()) { return s.status(); }
}  // namespace shim_log
// A failing CHECK or DCHECK is a violation: DCHECKs are on, as in test builds.
#define CHECK(c) \
  switch (0) case 0: default: \
  if (c) {} else ::shim_log::Fatal("CHECK failed: " #c, __FILE__, __LINE__).stream()
#define SHIM_CHECK_OP(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) SHIM_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) SHIM_CHECK_OP(a, !=, b)
#define CHECK_LE(a, b) SHIM_CHECK_OP(a, <=, b)
#define CHECK_LT(a, b) SHIM_CHECK_OP(a, <, b)
#define CHECK_GE(a, b) SHIM_CHECK_OP(a, >=, b)
#define CHECK_GT(a, b) SHIM_CHECK_OP(a, >, b)
#define CHECK_OK(s) CHECK(::shim_log::AsStatus(s).ok())
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_OK CHECK_OK
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#endif
