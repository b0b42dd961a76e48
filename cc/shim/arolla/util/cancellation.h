// A model of arolla's cancellation contexts: the flag becomes visible first,
// then the subscribed callbacks run, one by one, on the cancelling thread and
// outside any lock; a subscription to a cancelled context is notified at once.
#ifndef SHIM_CANCELLATION_H_
#define SHIM_CANCELLATION_H_
#include <atomic>
#include <list>
#include <memory>
#include <utility>
#include "absl/base/nullability.h"
#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/synchronization/mutex.h"
namespace arolla {
class CancellationContext;
using CancellationContextPtr = std::shared_ptr<CancellationContext>;
CancellationContextPtr CurrentCancellationContext();
bool Cancelled();
absl::Status CheckCancellation();
class CancellationContext : public std::enable_shared_from_this<CancellationContext> {
  struct Tag {};
 public:
  using Callback = absl::AnyInvocable<void() &&>;
  class Subscription;
  class ScopeGuard;
  explicit CancellationContext(Tag) {}
  static CancellationContextPtr Make() { return std::make_shared<CancellationContext>(Tag()); }
  void Cancel(absl::Status status = absl::CancelledError("")) noexcept;
  bool Cancelled() const noexcept { return cancelled_.load(std::memory_order_acquire); }
  absl::Status GetStatus() const noexcept {
    if (!Cancelled()) return absl::OkStatus();
    absl::MutexLock l(mu_);
    return status_;
  }
  [[nodiscard]] Subscription Subscribe(Callback&& callback);
  static ScopeGuard* active_cancellation_scope_guard() noexcept;
 private:
  struct Node {
    Callback cb;
    bool pending = true;
  };
  friend class Subscription;
  std::atomic<bool> cancelled_{false};
  mutable absl::Mutex mu_;
  absl::Status status_;
  std::list<std::shared_ptr<Node>> nodes_;
};
class CancellationContext::Subscription {
 public:
  Subscription() = default;
  Subscription(CancellationContextPtr c, std::shared_ptr<Node> n) : ctx_(std::move(c)), node_(std::move(n)) {}
  Subscription(Subscription&& o) noexcept : ctx_(std::move(o.ctx_)), node_(std::move(o.node_)) {}
  Subscription& operator=(Subscription&& o) noexcept {
    if (this != &o) {
      Reset();
      ctx_ = std::move(o.ctx_);
      node_ = std::move(o.node_);
    }
    return *this;
  }
  ~Subscription() { Reset(); }
  void Detach() && { ctx_.reset(); node_.reset(); }
 private:
  void Reset();
  CancellationContextPtr ctx_;
  std::shared_ptr<Node> node_;
};
class [[nodiscard]] CancellationContext::ScopeGuard {
 public:
  explicit ScopeGuard(CancellationContextPtr c = CancellationContext::Make());
  ~ScopeGuard();
  ScopeGuard(const ScopeGuard&) = delete;
  CancellationContext* cancellation_context() const { return ctx_.get(); }
 private:
  CancellationContextPtr ctx_;
  ScopeGuard* prev_;
};
}  // namespace arolla
#endif
