#ifndef SHIM_POST_HPP_
#define SHIM_POST_HPP_
#include <utility>
#include "boost/asio/thread_pool.hpp"
namespace boost::asio {
template <typename F>
void post(thread_pool& pool, F&& f) { pool.Post(thread_pool::Handler(std::forward<F>(f))); }
template <typename F>
void dispatch(thread_pool& pool, F&& f) { pool.Post(thread_pool::Handler(std::forward<F>(f))); }
template <typename F>
void defer(thread_pool& pool, F&& f) { pool.Post(thread_pool::Handler(std::forward<F>(f))); }
}  // namespace boost::asio
#endif
