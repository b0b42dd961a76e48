#ifndef SHIM15_ADOPTION_H_
#define SHIM15_ADOPTION_H_
#include <utility>
#include <vector>
#include "koladata/data_slice.h"
namespace koladata {
class AdoptionQueue {
 public:
  AdoptionQueue() = default;
  AdoptionQueue(const AdoptionQueue&) = delete;
  void Add(const DataSlice& s) { Add(s.GetBag()); }
  void Add(DataBagPtr b) { if (b != nullptr) bags_.push_back(std::move(b)); }
  bool empty() const { return bags_.empty(); }
  DataBagPtr GetBagWithFallbacks() const {
    auto b = std::make_shared<DataBag>();
    b->fallbacks = bags_;
    return b;
  }
  absl::StatusOr<DataBagPtr> GetCommonOrMergedDb() const {
    if (bags_.empty()) return DataBagPtr();
    auto b = std::make_shared<DataBag>();
    for (auto& x : bags_) if (auto s = Merge(*x, *b); !s.ok()) return s;
    return DataBagPtr(b);
  }
 private:
  static absl::Status Merge(const DataBag& from, DataBag& to) {
    for (auto& [k, v] : from.facts) {
      auto [it, fresh] = to.facts.emplace(k, v);
      if (!fresh && !(it->second == v)) return absl::FailedPreconditionError("conflict");
    }
    for (auto& f : from.fallbacks) if (auto s = Merge(*f, to); !s.ok()) return s;
    return absl::OkStatus();
  }
  std::vector<DataBagPtr> bags_;
};
}  // namespace koladata
#endif
