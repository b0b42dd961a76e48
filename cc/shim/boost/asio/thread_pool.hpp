// boost::asio::thread_pool on simulated threads: a FIFO of handlers, N workers.
#ifndef SHIM_THREAD_POOL_HPP_
#define SHIM_THREAD_POOL_HPP_
#include <cstddef>
#include <deque>
#include <functional>
#include <memory>
#include <utility>
#include <vector>
#include "absl/functional/any_invocable.h"
#include "vsim.h"
namespace boost::asio {
class thread_pool {
 public:
  using Handler = absl::AnyInvocable<void() &&>;
  thread_pool();
  explicit thread_pool(std::size_t n);
  ~thread_pool();
  thread_pool(const thread_pool&) = delete;
  void stop();
  void join();
  void wait() { join(); }
  void Post(Handler h);
  struct Impl;
 private:
  std::shared_ptr<Impl> impl_;
};
}  // namespace boost::asio
#endif
