#ifndef SHIM_node_hash_set_H_
#define SHIM_node_hash_set_H_
#include <string>
#include <string_view>
#include <unordered_set>
#include "absl/base/config.h"
#include "absl/hash/hash.h"
#include "absl/strings/string_view.h"
#ifndef SHIM_STR_HASH_
#define SHIM_STR_HASH_
namespace shim_hash {
template <typename T>
struct Hash {
  size_t operator()(const T& v) const {
    if constexpr (requires { std::hash<T>()(v); }) return std::hash<T>()(v);
    else return absl::Hash<T>()(v);
  }
};
struct Str {
  using is_transparent = void;
  size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); }
};
template <> struct Hash<std::string> : Str {};
template <> struct Hash<std::string_view> : Str {};
}  // namespace shim_hash
#endif
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename K, typename H = shim_hash::Hash<K>, typename E = std::equal_to<>>
class node_hash_set : public std::unordered_set<K, H, E> {
 public:
  using std::unordered_set<K, H, E>::unordered_set;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
