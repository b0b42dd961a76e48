#ifndef SHIM15_GET_DEFAULT_EXECUTOR_H_
#define SHIM15_GET_DEFAULT_EXECUTOR_H_
namespace koladata::functor::parallel {
// Whether the thread has a current executor.
extern thread_local bool t_has_executor;
class ProvideDefaultCurrentExecutorScopeGuard final {
 public:
  ProvideDefaultCurrentExecutorScopeGuard() noexcept : had_(t_has_executor) { t_has_executor = true; }
  ~ProvideDefaultCurrentExecutorScopeGuard() { t_has_executor = had_; }
 private:
  bool had_;
};
}  // namespace koladata::functor::parallel
#endif
