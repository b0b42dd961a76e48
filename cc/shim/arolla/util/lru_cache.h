// An LRU cache with arolla's interface. It is not synchronized; what it drops,
// it destroys at once.
#ifndef SHIM_LRU_CACHE_H_
#define SHIM_LRU_CACHE_H_
#include <cstddef>
#include <cstdint>
#include <list>
#include <utility>
#include "absl/container/flat_hash_map.h"
namespace arolla {
extern int64_t g_lru_big_capacity;  // what stands for a capacity of thousands
extern size_t g_lru_hash_mask;      // 0: every two keys collide, as any two may
template <typename Hash>
struct CoarseHash : Hash {
  template <typename K>
  size_t operator()(const K& k) const { return Hash::operator()(k) & g_lru_hash_mask; }
};
template <typename Key, typename Value, typename Hash = shim_hash::Hash<Key>, typename Eq = std::equal_to<>>
class LruCache {
  struct Entry {
    Key key;
    Value value;
    size_t weight;
  };
 public:
  explicit LruCache(size_t capacity) : capacity_(capacity) {}
  LruCache(const LruCache&) = delete;
  template <typename K>
  [[nodiscard]] const Value* LookupOrNull(const K& key) {
    ++uses_;
    auto it = index_.find(key);
    if (it == index_.end()) return nullptr;
    entries_.splice(entries_.begin(), entries_, it->second);
    return &entries_.front().value;
  }
  template <typename K, typename V>
  const Value* Put(K&& key, V&& value, size_t weight = 1) {
    ++uses_;
    entries_.push_front(Entry{std::forward<K>(key), std::forward<V>(value), weight});
    total_ += weight;
    auto [it, fresh] = index_.emplace(entries_.front().key, entries_.begin());
    if (!fresh) {
      auto old = it->second;
      it->second = entries_.begin();
      total_ -= old->weight;
      entries_.erase(old);
    }
    while (total_ > Capacity() && entries_.size() > 1) {
      auto last = std::prev(entries_.end());
      index_.erase(last->key);
      total_ -= last->weight;
      entries_.erase(last);
    }
    return &entries_.front().value;
  }
  void Clear() {
    index_.clear();
    entries_.clear();
    total_ = 0;
  }
 private:
  size_t Capacity() const { return capacity_ >= 1000 ? (size_t)g_lru_big_capacity : capacity_; }
  size_t capacity_, total_ = 0;
  size_t uses_ = 0;  // every use changes the order: the race detector sees it here
  std::list<Entry> entries_;
  absl::flat_hash_map<Key, typename std::list<Entry>::iterator, CoarseHash<Hash>, Eq> index_;
};
}  // namespace arolla
#endif
