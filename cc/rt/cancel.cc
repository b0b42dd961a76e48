// The model of arolla's cancellation contexts; compiled with instrumentation.
#include "arolla/util/cancellation.h"

namespace arolla {
namespace {
thread_local CancellationContext::ScopeGuard* t_guard = nullptr;
}

CancellationContext::ScopeGuard*
CancellationContext::active_cancellation_scope_guard() noexcept {
  return t_guard;
}
CancellationContextPtr CurrentCancellationContext() {
  if (!t_guard || !t_guard->cancellation_context()) return nullptr;
  return t_guard->cancellation_context()->shared_from_this();
}
bool Cancelled() {
  return t_guard && t_guard->cancellation_context() &&
         t_guard->cancellation_context()->Cancelled();
}
absl::Status CheckCancellation() {
  if (!Cancelled()) return absl::OkStatus();
  return t_guard->cancellation_context()->GetStatus();
}

void CancellationContext::Cancel(absl::Status status) noexcept {
  if (status.ok()) return;
  std::list<std::shared_ptr<Node>> nodes;
  {
    absl::MutexLock l(mu_);
    if (cancelled_.load(std::memory_order_relaxed)) return;
    status_ = std::move(status);
    cancelled_.store(true, std::memory_order_release);
    nodes.swap(nodes_);
  }
  for (auto& n : nodes) {
    Callback cb;
    {
      absl::MutexLock l(mu_);
      if (!n->pending) continue;
      n->pending = false;
      cb = std::move(n->cb);
    }
    std::move(cb)();
  }
}

CancellationContext::Subscription CancellationContext::Subscribe(
    Callback&& callback) {
  std::shared_ptr<Node> n;
  {
    absl::MutexLock l(mu_);
    if (!cancelled_.load(std::memory_order_relaxed)) {
      n = std::make_shared<Node>();
      n->cb = std::move(callback);
      nodes_.push_back(n);
      return Subscription(shared_from_this(), std::move(n));
    }
  }
  std::move(callback)();
  return Subscription();
}

void CancellationContext::Subscription::Reset() {
  if (!ctx_) return;
  Callback cb;
  {
    absl::MutexLock l(ctx_->mu_);
    if (node_->pending) {
      node_->pending = false;
      cb = std::move(node_->cb);
      ctx_->nodes_.remove(node_);
    }
  }
  node_.reset();
  ctx_.reset();
}

CancellationContext::ScopeGuard::ScopeGuard(CancellationContextPtr c)
    : ctx_(std::move(c)), prev_(t_guard) {
  t_guard = this;
}
CancellationContext::ScopeGuard::~ScopeGuard() { t_guard = prev_; }
}  // namespace arolla
