#ifndef SHIM_flat_hash_map_H_
#define SHIM_flat_hash_map_H_
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include "absl/base/config.h"
#include "absl/hash/hash.h"
#include "absl/strings/string_view.h"
#ifndef SHIM_STR_HASH_
#define SHIM_STR_HASH_
namespace shim_hash {
template <typename T>
struct Hash {
  size_t operator()(const T& v) const {
    if constexpr (requires { std::hash<T>()(v); }) return std::hash<T>()(v);
    else return absl::Hash<T>()(v);
  }
};
struct Str {
  using is_transparent = void;
  size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); }
};
template <> struct Hash<std::string> : Str {};
template <> struct Hash<std::string_view> : Str {};
}  // namespace shim_hash
#endif
namespace absl {
ABSL_NAMESPACE_BEGIN
// Moves its elements whenever one is added, as a table that grows does.
template <typename K, typename V, typename H = shim_hash::Hash<K>, typename E = std::equal_to<>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
  using Base = std::unordered_map<K, V, H, E>;
 public:
  using Base::Base;
  using typename Base::iterator;
  template <typename Q = K, typename... A>
  std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    if (auto it = this->find(k); it != this->end()) return {it, false};
    auto it = Base::emplace(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...)).first;
    Base moved;
    iterator res;
    while (!this->empty()) {
      bool same = this->begin() == it;
      auto n = this->extract(this->begin());
      auto at = moved.emplace(std::move(n.key()), std::move(n.mapped())).first;
      if (same) res = at;
    }
    this->swap(moved);
    return {res, true};
  }
  template <typename Q, typename W>
  std::pair<iterator, bool> emplace(Q&& k, W&& v) { return try_emplace(std::forward<Q>(k), std::forward<W>(v)); }
  std::pair<iterator, bool> insert(std::pair<const K, V> v) { return try_emplace(v.first, std::move(v.second)); }
  template <typename I>
  void insert(I a, I b) { for (; a != b; ++a) try_emplace(a->first, a->second); }
  template <typename Q = K, typename W = V>
  std::pair<iterator, bool> insert_or_assign(Q&& k, W&& v) {
    if (auto it = this->find(k); it != this->end()) {
      it->second = std::forward<W>(v);
      return {it, false};
    }
    return try_emplace(std::forward<Q>(k), std::forward<W>(v));
  }
  template <typename Q = K>
  V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
