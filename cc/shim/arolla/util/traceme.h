#ifndef SHIM_TRACEME_H_
#define SHIM_TRACEME_H_
namespace arolla::profiling {
struct TraceMe {
  template <typename T>
  explicit TraceMe(T&&) {}
};
}  // namespace arolla::profiling
#endif
