// DataBags shared between threads: forks, frozen copies, merges, fallbacks and
// the metadata cache. The store inside a bag is a stand-in.
#include <algorithm>
#include <map>
#include <set>

#include "common.h"
#include "koladata/data_bag.h"

namespace sim {
namespace {

using koladata::DataBag;
using koladata::DataBagPtr;
using koladata::internal::DataBagImpl;
using koladata::internal::ObjectId;
using Key = DataBagImpl::Key;
using Facts = DataBagImpl::Facts;

// What a bag must hold.
struct Model {
  Facts own;
  std::vector<const DataBag*> fallbacks;
  bool is_mutable = true;
  arolla::Fingerprint print;
};

int64_t Next();
struct Cached {
  const void* winner = nullptr;  // what the first completed call returned
  std::set<const void*> offered;
};
struct Meta1 {
  int64_t v;
  Probe probe;
};
struct Meta2 {
  int64_t v;
  Probe probe;
};

struct BagWorld {
  // By address (an address is not used again in a run).
  std::map<const DataBag*, Model> models;
  std::map<std::tuple<const DataBag*, int, int>, Cached> cached;
  std::set<std::pair<uint64_t, uint64_t>> prints;
  int64_t next = 0;
};
BagWorld* g = nullptr;

int64_t Next() {
  vsim::NoPreempt np;
  return ++g->next;
}

Model& M(const DataBagPtr& b) {
  vsim::NoPreempt np;
  auto it = g->models.find(b.get());
  if (it == g->models.end()) vsim::Fail("harness", "no model for a bag");
  return it->second;
}

void Flatten(const DataBag* b, std::vector<const DataBag*>& out, std::set<const DataBag*>& seen) {
  for (const DataBag* f : g->models.at(b).fallbacks) {
    if (seen.insert(f).second) {
      out.push_back(f);
      Flatten(f, out, seen);
    }
  }
}
std::vector<const DataBag*> Flat(const DataBagPtr& b) {
  std::vector<const DataBag*> out;
  std::set<const DataBag*> seen{b.get()};
  Flatten(b.get(), out, seen);
  return out;
}
Facts Contents(const DataBagPtr& b) {
  vsim::NoPreempt np;
  Facts f = M(b).own;
  for (const DataBag* x : Flat(b)) {
    const Facts& own = g->models.at(x).own;
    f.insert(own.begin(), own.end());
  }
  return f;
}

std::string Str(const Facts& f) {
  std::string s;
  for (auto& [k, v] : f) s += (s.empty() ? "" : " ") + std::to_string(k.first) + "." + std::to_string(k.second) + "=" + std::to_string(v);
  return "{" + s + "}";
}

// Registers a new bag.
void New(const DataBagPtr& b, Model m, const char* how) {
  vsim::NoPreempt np;
  if (b == nullptr) Violation("no-bag", "%s gave no bag", how);
  m.print = b->fingerprint();
  auto key = std::pair(absl::Uint128High64(m.print.value), absl::Uint128Low64(m.print.value));
  if (!g->prints.insert(key).second) Violation("same-fingerprint", "%s: the new bag has the fingerprint of another bag", how);
  if (b->IsMutable() != m.is_mutable) Violation("wrong-mutability", "%s: the bag is %smutable", how, m.is_mutable ? "im" : "");
  g->models[b.get()] = std::move(m);
}

// Reads everything there is to read in a bag, as the operators do: from the
// store of the bag, then from those of its fallbacks.
void CheckBag(const DataBagPtr& b, const char* when) {
  Facts got = b->GetImpl().All();
  koladata::FlattenFallbackFinder finder(*b);
  auto flat = finder.GetFlattenFallbacks();
  for (const DataBagImpl* f : flat) {
    Facts x = f->All();
    got.insert(x.begin(), x.end());
  }
  bool empty = b->IsEmpty();
  int64_t bytes = b->GetApproxByteSize();
  bool is_mutable = b->IsMutable();
  arolla::Fingerprint print = b->fingerprint();
  size_t nf = b->GetFallbacks().size();
  vsim::NoPreempt np;
  Facts want = Contents(b);
  if (got != want) Violation("wrong-contents", "%s: a bag holds %s instead of %s", when, Str(got).c_str(), Str(want).c_str());
  auto fl = Flat(b);
  bool same = fl.size() == flat.size();
  int64_t want_bytes = 10 * (int64_t)M(b).own.size();
  for (size_t i = 0; same && i < fl.size(); ++i) {
    same = &fl[i]->GetImpl() == flat[i];
    want_bytes += 10 * (int64_t)g->models.at(fl[i]).own.size();
  }
  if (!same) Violation("wrong-fallbacks", "%s: the flattened fallbacks (%zu) differ from the model's (%zu)", when, flat.size(), fl.size());
  if (nf != M(b).fallbacks.size()) Violation("wrong-fallbacks", "%s: %zu fallbacks instead of %zu", when, nf, M(b).fallbacks.size());
  if (empty != want.empty()) Violation("wrong-empty", "%s: IsEmpty is %d for %s", when, empty, Str(want).c_str());
  if (bytes != want_bytes) Violation("wrong-size", "%s: size %ld instead of %ld", when, (long)bytes, (long)want_bytes);
  if (is_mutable != M(b).is_mutable) Violation("wrong-mutability", "%s: the bag is %smutable", when, is_mutable ? "" : "not ");
  if (!(print == M(b).print)) Violation("wrong-fingerprint", "%s: the fingerprint of a bag changed", when);
}

Key AnyKey() { return {Pick(2), Pick(5)}; }

// Writes to a bag that only this thread uses.
void Write(const DataBagPtr& b) {
  auto impl = b->GetMutableImpl();
  if (!M(b).is_mutable) {
    if (impl.ok() || impl.status().code() != absl::StatusCode::kInvalidArgument) Violation("immutable-written", "an immutable bag can be written to");
    return;
  }
  if (!impl.ok()) Violation("refused-write", "a mutable bag refuses writes: %s", impl.status().ToString().c_str());
  int n = 1 + Pick(4);
  for (int i = 0; i < n; ++i) {
    Key k = AnyKey();
    int64_t v = Pick(2) == 0 ? Pick(3) : 100 + Next();
    absl::Status st = impl->Set(k, v);
    if (!st.ok()) Violation("refused-write", "a mutable bag refuses a write: %s", st.ToString().c_str());
    vsim::NoPreempt np;
    M(b).own[k] = v;
  }
}

template <typename T>
void UseCache(const DataBagPtr& b, int type) {
  int o = Pick(3);
  ObjectId id = ObjectId::UnsafeCreateFromInternalHighLow(1ull << 40, o);
  bool set = Pick(2) == 0;
  auto key = std::tuple((const DataBag*)b.get(), o, type);
  bool known, any;
  int64_t v;
  {
    vsim::NoPreempt np;
    auto& c = g->cached[key];
    known = c.winner != nullptr;
    any = !c.offered.empty();
    v = ++g->next;
  }
  std::shared_ptr<const T> got;
  if (set) {
    auto mine = std::make_shared<const T>(T{v, Probe()});
    {
      vsim::NoPreempt np;
      g->cached[key].offered.insert(mine.get());
    }
    if (Pick(4) == 0 && !b->IsMutable()) {
      // The overload that takes a value.
      got = b->SetCachedMetadata(id, T{v, Probe()});
      vsim::NoPreempt np;
      if (got != nullptr && got->v == v) g->cached[key].offered.insert(got.get());
    } else {
      got = b->SetCachedMetadata(id, mine);
    }
    vsim::NoPreempt np;
    vsim::Count("metadata-set");
    if (got == nullptr) Violation("cache-null", "SetCachedMetadata returned nothing");
    auto& c = g->cached[key];
    if (b->IsMutable()) {
      if (got != mine) Violation("cache-mutable", "SetCachedMetadata on a mutable bag did not return the value it was given");
      c = Cached();
      return;
    }
    if (!c.winner) c.winner = got.get();
    if (c.winner != got.get()) Violation("cache-overridden", "two values are cached for one key and type");
  } else {
    got = b->template GetCachedMetadataOrNull<T>(id);
    vsim::NoPreempt np;
    auto& c = g->cached[key];
    if (b->IsMutable() && got != nullptr) Violation("cache-mutable", "a mutable bag caches metadata");
    if (known && got == nullptr) Violation("cache-lost", "a cached value is gone");
    // Offered by a call that was not over yet: it may be the one that stays.
    if (got != nullptr && c.winner == nullptr) {
      if (c.offered.empty()) Violation("cache-foreign", "a value that was never cached for this key and type");
      c.winner = got.get();
    }
    if (got != nullptr && c.winner != got.get()) Violation("cache-overridden", "two values are cached for one key and type");
    (void)any;
  }
  if (got != nullptr && got->v <= 0) Violation("cache-value", "a bad cached value");
}

struct Pool {
  std::vector<DataBagPtr> shared;  // nobody writes to these in this phase
  std::vector<DataBagPtr> own;     // only this thread uses these
  std::vector<DataBagPtr> made;
  std::vector<DataBagPtr> drop;    // to be let go of at some point
  std::vector<DataBagPtr> spoiled;
};

const DataBagPtr& AnyOf(std::vector<DataBagPtr>& v) { return v[Pick(v.size())]; }

Model Copy(const DataBagPtr& b, bool is_mutable) {
  Model m;
  m.own = Contents(b);
  m.is_mutable = is_mutable;
  return m;
}

void MakeFork(Pool& p, const DataBagPtr& b) {
  bool immutable = Pick(3) == 0;
  auto r = b->Fork(immutable);
  if (!M(b).fallbacks.empty()) {
    if (r.ok() || r.status().code() != absl::StatusCode::kFailedPrecondition) Violation("forked-fallbacks", "a bag with fallbacks can be forked");
    return;
  }
  if (!r.ok()) Violation("no-fork", "%s", r.status().ToString().c_str());
  New(*r, Copy(b, !immutable), "Fork");
  CheckBag(*r, "new fork");
  p.made.push_back(*std::move(r));
}

void MakeFrozen(Pool& p, const DataBagPtr& b) {
  DataBagPtr r = b->Freeze();
  if (r == b) {
    if (M(b).is_mutable) Violation("frozen-mutable", "Freeze returned a mutable bag itself");
    p.made.push_back(std::move(r));
    return;
  }
  Model m;
  {
    vsim::NoPreempt np;
    if (M(b).fallbacks.empty()) {
      m = Copy(b, false);
    } else {
      m = M(b);
    }
  }
  New(r, m, "Freeze");
  CheckBag(r, "frozen bag");
  p.made.push_back(std::move(r));
}

void MakeMerged(Pool& p, const DataBagPtr& b) {
  auto r = b->MergeFallbacks();
  if (!r.ok()) Violation("no-merge", "%s", r.status().ToString().c_str());
  New(*r, Copy(b, true), "MergeFallbacks");
  CheckBag(*r, "merged fallbacks");
  p.made.push_back(*std::move(r));
}

void MakeUpdate(Pool& p, const DataBagPtr& b, const DataBagPtr& other) {
  auto r = b->CreateOverwritingMergeUpdate(other);
  if (!M(b).fallbacks.empty()) {
    if (r.ok()) Violation("update-fallbacks", "an update of a bag with fallbacks");
    return;
  }
  if (!r.ok()) Violation("no-update", "%s", r.status().ToString().c_str());
  Model m;
  m.is_mutable = false;
  {
    vsim::NoPreempt np;
    Facts mine = Contents(b);
    for (auto& [k, v] : Contents(other)) {
      auto it = mine.find(k);
      if (it == mine.end() || it->second != v) m.own[k] = v;
    }
  }
  New(*r, m, "CreateOverwritingMergeUpdate");
  CheckBag(*r, "update");
  p.made.push_back(*std::move(r));
}

void MakeWithFallbacks(Pool& p) {
  std::vector<DataBagPtr> fb;
  bool any_mutable = false;
  int n = Pick(5);
  Model m;
  m.is_mutable = false;
  for (int i = 0; i < n; ++i) {
    if (Pick(8) == 0) {
      fb.push_back(nullptr);
      continue;
    }
    const DataBagPtr& b = AnyOf(p.shared);
    if (M(b).is_mutable) {
      if (Pick(4) != 0) continue;
      any_mutable = true;
    }
    fb.push_back(b);
    m.fallbacks.push_back(b.get());
  }
  auto r = DataBag::ImmutableEmptyWithFallbacks(fb);
  if (any_mutable) {
    if (r.ok() || r.status().code() != absl::StatusCode::kInvalidArgument) Violation("mutable-fallback", "a mutable bag can be a fallback");
    return;
  }
  if (!r.ok()) Violation("no-fallbacks", "%s", r.status().ToString().c_str());
  New(*r, m, "ImmutableEmptyWithFallbacks");
  vsim::Count("with-fallbacks");
  CheckBag(*r, "bag with fallbacks");
  p.made.push_back(*std::move(r));
}

// Returns false when the merge failed half-way.
bool Merge(const DataBagPtr& b, const DataBagPtr& other) {
  bool overwrite = Pick(2), data = Pick(3) != 0, schema = Pick(3) != 0;
  Facts want;
  bool conflict = false;
  {
    vsim::NoPreempt np;
    want = Contents(b);
    for (auto& [k, v] : Contents(other)) {
      auto it = want.find(k);
      if (it == want.end()) want[k] = v;
      else if (it->second != v) {
        if (!(k.first ? schema : data)) conflict = true;
        else if (overwrite) it->second = v;
      }
    }
  }
  bool is_mutable = M(b).is_mutable;
  absl::Status st = b->MergeInplace(other, overwrite, data, schema);
  if (!is_mutable) {
    if (st.ok() || st.code() != absl::StatusCode::kInvalidArgument) Violation("immutable-written", "an immutable bag can be merged into");
    CheckBag(b, "after a refused merge");
    return true;
  }
  if (st.ok() == conflict) Violation("wrong-merge", "a merge (overwrite %d, data %d, schemas %d) gave %s", overwrite, data, schema, st.ToString().c_str());
  if (conflict) {
    vsim::Count("merge-conflict");
    return false;
  }
  {
    vsim::NoPreempt np;
    M(b).own = want;
  }
  CheckBag(b, "after a merge");
  return true;
}

void Step(Pool& p) {
  switch (Pick(12)) {
    case 0:
    case 1:
    case 2: MakeFork(p, AnyOf(p.shared)); break;
    case 3: MakeFrozen(p, AnyOf(p.shared)); break;
    case 4: CheckBag(AnyOf(p.shared), "shared bag"); break;
    case 5: {
      const DataBagPtr& b = AnyOf(p.shared);
      if (Pick(2)) UseCache<Meta1>(b, 1);
      else UseCache<Meta2>(b, 2);
      break;
    }
    case 6: MakeMerged(p, AnyOf(p.shared)); break;
    case 7: {
      const DataBagPtr& b = AnyOf(p.shared);
      MakeUpdate(p, b, AnyOf(p.shared));
      break;
    }
    case 8: MakeWithFallbacks(p); break;
    case 9: {
      // A bag of this thread's own, while its forks are read by others.
      std::vector<DataBagPtr>* from = &p.own;
      if (p.own.empty() || (Pick(2) && !p.made.empty())) from = &p.made;
      if (from->empty()) break;
      DataBagPtr b = AnyOf(*from);
      // `made` may hold a shared bag (Freeze of an immutable one).
      if (std::find(p.shared.begin(), p.shared.end(), b) != p.shared.end()) break;
      vsim::Count("write-next-to-readers");
      if (Pick(4) == 0 && M(b).is_mutable) {
        // A writer that got hold of the store before the bag was forked.
        auto impl = b->GetMutableImpl();
        if (!impl.ok()) Violation("refused-write", "a mutable bag refuses writes: %s", impl.status().ToString().c_str());
        MakeFork(p, b);
        DataBagPtr fork = p.made.back();
        Key k = AnyKey();
        int64_t v = 100 + Next();
        vsim::Count("stale-writer");
        if (impl->Set(k, v).ok()) {
          Facts f = b->GetImpl().All();
          auto it = f.find(k);
          if (it != f.end() && it->second == v) M(b).own[k] = v;
        }
        CheckBag(fork, "fork of a bag that is written to");
      }
      Write(b);
      CheckBag(b, "own bag");
      break;
    }
    case 10: {
      if (p.own.empty() && p.made.empty()) break;
      std::vector<DataBagPtr>& from = p.own.empty() || (Pick(2) && !p.made.empty()) ? p.made : p.own;
      int i = Pick(from.size());
      DataBagPtr b = from[i];
      if (std::find(p.shared.begin(), p.shared.end(), b) != p.shared.end()) break;
      if (!Merge(b, AnyOf(p.shared))) {
        // Its content is undefined now: no pool keeps it.
        for (auto* v : {&p.own, &p.made}) v->erase(std::remove(v->begin(), v->end(), b), v->end());
        p.spoiled.push_back(b);
      }
      break;
    }
    case 11:
      if (!p.drop.empty()) p.drop.pop_back();
      break;
  }
}

// Bags on top of bags: taking them down must not need a deep stack.
DataBagPtr Tower(int height, bool wide) {
  DataBagPtr top = DataBag::Empty(), below = top;
  for (int i = 0; i < height; ++i) {
    std::vector<DataBagPtr> fb{top};
    if (wide && i % 3 == 0) fb.insert(fb.begin() + Pick(2), below);
    if (wide && i % 5 == 0) fb.push_back(DataBag::Empty());
    below = top;
    top = *DataBag::ImmutableEmptyWithFallbacks(fb);
  }
  return top;
}

void P13() {
  BagWorld world;
  g = &world;
  std::vector<DataBagPtr> all;
  int n = 1 + Pick(6);
  for (int i = 0; i < n; ++i) {
    DataBagPtr b = Pick(6) == 0 ? DataBag::Empty() : DataBag::EmptyMutable();
    Model m;
    m.is_mutable = b->IsMutable();
    New(b, m, "new bag");
    if (m.is_mutable && Pick(5) != 0) Write(b);
    if (m.is_mutable && Pick(3) == 0) {
      b->UnsafeMakeImmutable();
      M(b).is_mutable = false;
    }
    all.push_back(std::move(b));
  }
  int phases = 1 + Pick(3);
  for (int ph = 0; ph < phases; ++ph) {
    int nthreads = 1 + Pick(3);
    std::vector<Pool> pools(nthreads);
    std::vector<DataBagPtr> kept, shared;
    std::set<const DataBag*> dropped;
    for (auto& b : all) {
      int who = Pick(3 * nthreads);
      if (who < nthreads && M(b).is_mutable) {
        pools[who].own.push_back(b);
      } else if (who == nthreads && all.size() > 3) {
        // Let go by everybody during the phase; nobody uses it otherwise.
        for (auto& p : pools) p.drop.push_back(b);
        continue;
      } else {
        shared.push_back(b);
      }
      kept.push_back(b);
    }
    all = kept;
    kept.clear();
    if (shared.empty()) {
      DataBagPtr b = DataBag::Empty();
      New(b, Model{.is_mutable = false}, "new bag");
      shared.push_back(b);
      all.push_back(b);
    }
    // Towers that several threads take down together.
    DataBagPtr tower;
    if (Pick(5) == 0) {
      vsim::NoPreempt np;
      tower = Tower(40 + Pick(40), Pick(2));
      vsim::Count("tower");
    }
    for (int i = 0; i < nthreads; ++i) {
      pools[i].shared = shared;
      if (tower != nullptr && Pick(2)) {
        auto more = DataBag::ImmutableEmptyWithFallbacks({tower, tower});
        pools[i].drop.push_back(*std::move(more));
      } else if (tower != nullptr) {
        pools[i].drop.push_back(tower);
      }
    }
    tower = nullptr;
    for (int i = 0; i < nthreads; ++i) {
      int ops = 1 + Pick(8);
      vsim::Spawn([&pools, i, ops] {
        for (int k = 0; k < ops; ++k) Step(pools[i]);
        pools[i].drop.clear();
        pools[i].shared.clear();
      }, ThreadName("user", i));
    }
    shared.clear();
    vsim::Quiesce();
    for (auto& p : pools) {
      for (auto& b : p.spoiled) all.erase(std::remove(all.begin(), all.end(), b), all.end());
      for (auto& b : p.made) {
        if (std::find(all.begin(), all.end(), b) == all.end()) all.push_back(b);
      }
    }
    for (auto& b : all) CheckBag(b, "after a phase");
    // Every mutable bag changes; no other bag does.
    for (size_t i = 0; i < all.size(); ++i) {
      if (Pick(2)) Write(all[i]);
    }
    for (auto& b : all) CheckBag(b, "after the writes of a phase");
    while (all.size() > 12) all.erase(all.begin() + Pick(all.size()));
  }
  if (DataBag::GetStaticEmpty() != DataBag::GetStaticEmpty() || DataBag::GetStaticEmpty()->IsMutable() || !DataBag::GetStaticEmpty()->IsEmpty()) {
    Violation("static-empty", "the static empty bag is not one immutable empty bag");
  }
  if (Pick(40) == 0) {
    vsim::NoPreempt np;
    DataBagPtr t = Tower(3000 + 1000 * Pick(4), Pick(2));
    int64_t here = (int64_t)__builtin_frame_address(0);
    vsim::Counter(DataBagImpl::kLowestStack, here);
    t = nullptr;
    int64_t used = here - vsim::Counter(DataBagImpl::kLowestStack, 0);
    vsim::Counter(DataBagImpl::kLowestStack, used - here);
    vsim::Count("high-tower");
    if (used > (256 << 10)) Violation("deep-destruction", "taking down a tower of bags nests %ld bytes of calls", (long)used);
  }
  all.clear();
  // The static bag has one.
  int64_t live = vsim::Counter(DataBagImpl::kLiveImpls, 0);
  if (live != 1) Violation("leak", "%ld stores of bags are still there", (long)live - 1);
  CheckNoLeaks();
  g = nullptr;
}
vsim::Scenario s1("bags", P13);

}  // namespace
}  // namespace sim
