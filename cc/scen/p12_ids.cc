// Object ids: unique across threads, kinds, sizes and reseeds; sets of them.
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <tuple>

#include "common.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/op_utils/base62.h"
#include "koladata/internal/pseudo_random.h"

namespace sim {
namespace {

using koladata::internal::AllocationId;
using koladata::internal::AllocationIdSet;
using koladata::internal::ObjectId;
namespace ki = koladata::internal;

enum Kind { kEntity, kList, kDict, kSchema };
const char* kKinds[] = {"entity", "list", "dict", "schema"};

// What a random source returned, and the reseeds.
struct Reseed {
  uint64_t begin, end;
  bool ok;
};
struct IdWorld {
  uint64_t randoms = 0;
  int zeros = 0;
  bool reseed_works = true;
  bool long_burst = false;
  std::vector<Reseed> reseeds;
  uint64_t seq = 0;
};
IdWorld* g = nullptr;

// A maximal range of ids that one thread got one after the other.
struct Range {
  uint64_t hi;            // allocator, size and kind bits
  uint64_t lo, end;       // [lo, end) of the low half; end == 0 for 2**64
  uint64_t begin_seq, end_seq;
  int thread;
};

struct Epoch {
  uint64_t value, begin_seq, end_seq;
};

struct Log {
  std::vector<Range> ranges;
  std::vector<Epoch> epochs;
  std::vector<std::tuple<arolla::Fingerprint>> prints;
  std::vector<AllocationId> allocs;
};

std::string Show(ObjectId id) { return id.DebugString(); }

void CheckKind(ObjectId id, Kind k) {
  bool ok = id.IsAllocated() && !id.IsUuid() && id.IsEntity() == (k == kEntity) && id.IsList() == (k == kList) &&
            id.IsDict() == (k == kDict) && id.IsSchema() == (k == kSchema) && id.IsExplicitSchema() == (k == kSchema) &&
            !id.IsImplicitSchema() && !id.IsNoFollowSchema();
  if (!ok) Violation("wrong-kind", "a new %s id %s says it is something else", kKinds[k], Show(id).c_str());
}

// Properties that any id must have by itself.
void CheckId(ObjectId id) {
  std::string s = Show(id);
  size_t p = s.find_first_of("$#");
  if (p == std::string::npos || ki::DecodeBase62(s.substr(p + 1)) != id.ToRawInt128()) {
    Violation("wrong-text", "%s does not stand for its id", s.c_str());
  }
  if (ObjectId::UnsafeCreateFromInternalHighLow(id.InternalHigh64(), id.InternalLow64()) != id) {
    Violation("wrong-raw", "%s cannot be rebuilt from its two halves", s.c_str());
  }
}

void Record(Log& log, ObjectId first, uint64_t count, uint64_t b, uint64_t e) {
  uint64_t lo = first.InternalLow64(), hi = first.InternalHigh64();
  if (!log.ranges.empty()) {
    Range& r = log.ranges.back();
    // Joined only when nothing happened in between that matters below.
    if (r.hi == hi && r.end == lo && r.end != 0 && r.end_seq + 2 >= b) {
      r.end = lo + count;
      r.end_seq = e;
      return;
    }
  }
  log.ranges.push_back({hi, lo, lo + count, b, e, vsim::CurrentThread()});
}

uint64_t Seq() {
  vsim::NoPreempt np;
  return ++g->seq;
}

ObjectId One(Kind k) {
  switch (k) {
    case kEntity: return ki::AllocateSingleObject();
    case kList: return ki::AllocateSingleList();
    case kDict: return ki::AllocateSingleDict();
    default: return ki::AllocateExplicitSchema();
  }
}
AllocationId Many(Kind k, uint64_t size) {
  switch (k) {
    case kEntity: return ki::Allocate(size);
    case kList: return ki::AllocateLists(size);
    case kDict: return ki::AllocateDicts(size);
    default: return ki::AllocateExplicitSchemas(size);
  }
}

Kind KindOf(const AllocationId& a) {
  return a.IsListsAlloc() ? kList : a.IsDictsAlloc() ? kDict : a.IsSchemasAlloc() ? kSchema : kEntity;
}

void CheckAlloc(const AllocationId& a, Kind k, uint64_t size) {
  uint64_t cap = a.Capacity();
  if (cap < size || (size > 1 && cap >= 2 * size) || (cap & (cap - 1))) {
    Violation("wrong-capacity", "room for %lu asked, an allocation of %lu made", (unsigned long)size, (unsigned long)cap);
  }
  bool kinds = a.IsListsAlloc() == (k == kList) && a.IsDictsAlloc() == (k == kDict) &&
               a.IsEntitiesAlloc() == (k == kEntity) && a.IsSchemasAlloc() == (k == kSchema) &&
               a.IsExplicitSchemasAlloc() == (k == kSchema) && a.IsSmall() == (cap <= ki::kSmallAllocMaxCapacity);
  if (!kinds) Violation("wrong-kind", "a new allocation of kind %s says it is something else", kKinds[k]);
  uint64_t offs[] = {0, cap - 1, cap / 2, size ? size - 1 : 0};
  for (uint64_t o : offs) {
    ObjectId id = a.ObjectByOffset(o);
    if ((uint64_t)id.Offset() != o || AllocationId(id) != a || !a.Contains(id)) {
      Violation("wrong-member", "object %lu of %s is not where it belongs", (unsigned long)o, Show(id).c_str());
    }
    CheckKind(id, k);
    CheckId(id);
    // The ids derived from it keep their place and are of their own kind.
    arolla::Fingerprint fp{absl::MakeUint128(o * 0x9E3779B97F4A7C15ull + id.InternalLow64(), id.InternalHigh64())};
    ObjectId u = ki::CreateUuidWithMainObject(id, fp);
    ObjectId u0 = ki::CreateUuidWithMainObject(a.ObjectByOffset(0), fp);
    if (!u.IsUuid() || !u.IsEntity() || u.Offset() != id.Offset() || AllocationId(u) != AllocationId(u0) ||
        AllocationId(u).Capacity() != cap) {
      Violation("wrong-uuid", "uuid %s from main object %s", Show(u).c_str(), Show(id).c_str());
    }
    if (k == kSchema) {
      ObjectId nf = ki::CreateNoFollowWithMainObject(id);
      if (!nf.IsNoFollowSchema() || !nf.IsSchema() || ki::GetOriginalFromNoFollow(nf) != id || nf == id) {
        Violation("wrong-nofollow", "%s", Show(nf).c_str());
      }
    }
  }
}

uint64_t AnySize() {
  switch (Pick(8)) {
    case 0: return 2;
    case 1: return Pick(2);
    case 2: return 3 + Pick(3);
    case 3: return 1000;
    case 4: return (1ull << 40) - Pick(2);
    case 5: return 1ull << (2 + Pick(38));
    case 6: return (1ull << (2 + Pick(37))) + 1;
    default: return 8;
  }
}

// Every call of one thread, with a lot of allocations of one size now and then
// (a thread takes a new share of the ids when it has used one up).
void Work(Log& log, int ops, bool may_burst) {
  std::map<int, int> bursts;
  for (int i = 0; i < ops; ++i) {
    Kind k = (Kind)Pick(4);
    switch (Pick(8)) {
      case 0:
      case 1: {
        uint64_t b = Seq();
        ObjectId id = One(k);
        uint64_t e = Seq();
        vsim::NoPreempt np;
        CheckKind(id, k);
        CheckId(id);
        Record(log, id, 1, b, e);
        break;
      }
      case 2:
      case 3:
      case 4: {
        uint64_t size = AnySize();
        uint64_t b = Seq();
        AllocationId a = Many(k, size);
        uint64_t e = Seq();
        vsim::NoPreempt np;
        CheckAlloc(a, k, size);
        Record(log, a.ObjectByOffset(0), a.Capacity(), b, e);
        log.allocs.push_back(a);
        break;
      }
      case 5: {
        if (log.allocs.empty()) break;
        AllocationId old = log.allocs[Pick(log.allocs.size())];
        uint64_t b = Seq();
        AllocationId a = ki::NewAllocationIdLike(old);
        uint64_t e = Seq();
        vsim::NoPreempt np;
        CheckAlloc(a, KindOf(old), old.Capacity());
        if (a.Capacity() != old.Capacity()) Violation("wrong-capacity", "NewAllocationIdLike made another capacity");
        Record(log, a.ObjectByOffset(0), a.Capacity(), b, e);
        break;
      }
      case 6: {
        uint64_t b = Seq();
        uint64_t v = ki::PseudoRandomEpochId();
        uint64_t e = Seq();
        vsim::NoPreempt np;
        log.epochs.push_back({v, b, e});
        break;
      }
      case 7: {
        if (Pick(3) == 0) {
          log.prints.emplace_back(ki::PseudoRandomFingerprint());
          break;
        }
        if (!may_burst || bursts[0] > 1) break;
        ++bursts[0];
        // 2**40: a share is 64 allocations; 2**34: 128; 2**28: 512; 2**20: 2048.
        if (g->long_burst) {
          // A share of single ids is 2**24 of them.
          g->long_burst = false;
          vsim::Count("single-share-used-up");
          vsim::NoPreempt np;
          uint64_t b = ++g->seq;
          ObjectId first = One(k);
          uint64_t hi = first.InternalHigh64(), next = first.InternalLow64() + 1;
          uint64_t start = next - 1;
          for (int j = 0; j < (1 << 24) + 2; ++j) {
            ObjectId id = One(k);
            if (id.InternalHigh64() == hi && id.InternalLow64() == next) {
              ++next;
              continue;
            }
            log.ranges.push_back({hi, start, next, b, ++g->seq, vsim::CurrentThread()});
            b = ++g->seq;
            hi = id.InternalHigh64();
            start = id.InternalLow64();
            next = start + 1;
          }
          log.ranges.push_back({hi, start, next, b, ++g->seq, vsim::CurrentThread()});
          break;
        }
        static const uint64_t kSizes[] = {1ull << 40, 1ull << 34, 1ull << 28, 1ull << 20};
        int w = Pick(4);
        uint64_t size = kSizes[w] - Pick(2);
        int n = (w == 0 ? 64 : w == 1 ? 128 : w == 2 ? 512 : 2048) - 1 + Pick(4);
        vsim::Count("share-used-up");
        for (int j = 0; j < n; ++j) {
          // Preempted only around the end of the share.
          if (j < 2 || j > n - 5) {
            uint64_t b = Seq();
            AllocationId a = Many(k, size);
            uint64_t e = Seq();
            vsim::NoPreempt np;
            Record(log, a.ObjectByOffset(0), a.Capacity(), b, e);
          } else {
            vsim::NoPreempt np;
            uint64_t b = ++g->seq;
            AllocationId a = Many(k, size);
            uint64_t e = ++g->seq;
            Record(log, a.ObjectByOffset(0), a.Capacity(), b, e);
          }
        }
        break;
      }
    }
  }
}

void DoReseed() {
  uint64_t b = Seq();
  bool works = g->reseed_works;
  std::seed_seq entropy{1, 2, 3};
  absl::Status st = ki::ReseedPseudoRandom(std::move(entropy));
  uint64_t e = Seq();
  vsim::NoPreempt np;
  vsim::Count(works ? "reseed" : "reseed-unsupported");
  if (st.ok() != works) Violation("wrong-reseed", "reseeding gave %s", st.ToString().c_str());
  g->reseeds.push_back({b, e, works});
}

// No reseed lies, even partly, between two moments.
bool NoReseedIn(uint64_t b, uint64_t e) {
  for (auto& r : g->reseeds) {
    if (r.ok && r.end > b && r.begin < e) return false;
  }
  return true;
}
// A whole reseed lies between two moments.
bool ReseedBetween(uint64_t b, uint64_t e) {
  for (auto& r : g->reseeds) {
    if (r.ok && r.begin > b && r.end < e) return true;
  }
  return false;
}

void P12() {
  IdWorld world;
  g = &world;
  world.zeros = Pick(4) == 0 ? 1 + Pick(3) : 0;
  world.long_burst = Pick(100) == 77;
  int nthreads = 1 + Pick(4);
  bool reseeds = Pick(3) == 0;
  world.reseed_works = Pick(4) != 0;
  std::vector<Log> logs(nthreads + 1);
  for (int i = 0; i < nthreads; ++i) {
    int ops = 2 + Pick(12);
    vsim::Spawn([&logs, i, ops] { Work(logs[i], ops, true); }, ThreadName("allocator", i));
  }
  if (reseeds) {
    int n = 1 + Pick(2);
    vsim::Spawn([n] {
      for (int i = 0; i < n; ++i) {
        Pause();
        DoReseed();
      }
    }, "reseeder");
  }
  vsim::Quiesce();
  Work(logs[nthreads], 3, false);

  std::vector<Range> all;
  std::vector<Epoch> epochs;
  std::set<std::pair<uint64_t, uint64_t>> prints;
  for (auto& l : logs) {
    all.insert(all.end(), l.ranges.begin(), l.ranges.end());
    epochs.insert(epochs.end(), l.epochs.begin(), l.epochs.end());
    for (auto& [f] : l.prints) {
      ObjectId id;
      static_assert(sizeof(id) == sizeof(f));
      memcpy(&id, &f, sizeof id);
      if (!prints.insert({id.InternalHigh64(), id.InternalLow64()}).second) Violation("same-fingerprint", "a random fingerprint was handed out twice");
    }
  }
  std::sort(all.begin(), all.end(), [](const Range& a, const Range& b) { return std::tie(a.hi, a.lo) < std::tie(b.hi, b.lo); });
  for (size_t i = 1; i < all.size(); ++i) {
    const Range& a = all[i - 1];
    const Range& b = all[i];
    if (a.hi == b.hi && b.lo - a.lo < a.end - a.lo) {
      Violation("same-id", "threads %d and %d both got the id %s", a.thread, b.thread,
                Show(ObjectId::UnsafeCreateFromInternalHighLow(b.hi, b.lo)).c_str());
    }
  }
  // The allocator part of the id (its lowest 52 bits) changes exactly with the
  // reseeds.
  auto alloc_of = [](const Range& r) { return r.hi & ((1ull << 52) - 1); };
  for (size_t i = 0; i < all.size(); ++i) {
    for (size_t j = 0; j < all.size(); ++j) {
      const Range &a = all[i], &b = all[j];
      if (alloc_of(a) != alloc_of(b) && NoReseedIn(std::min(a.begin_seq, b.begin_seq), std::max(a.end_seq, b.end_seq))) {
        Violation("allocator-changed", "ids of two allocators without a reseed (threads %d and %d)", a.thread, b.thread);
      }
      if (alloc_of(a) == alloc_of(b) && ReseedBetween(a.end_seq, b.begin_seq)) {
        Violation("allocator-kept", "ids before and after a reseed are of one allocator (threads %d and %d)", a.thread, b.thread);
      }
    }
  }
  for (auto& a : epochs) {
    if (a.value == 0) Violation("no-epoch", "the epoch id is 0");
    for (auto& b : epochs) {
      if (a.value != b.value && NoReseedIn(std::min(a.begin_seq, b.begin_seq), std::max(a.end_seq, b.end_seq))) {
        Violation("epoch-changed", "two epochs without a reseed");
      }
      if (a.value == b.value && ReseedBetween(a.end_seq, b.begin_seq)) Violation("epoch-kept", "an epoch id survives a reseed");
    }
  }
  if (ki::PseudoRandomEpochIdPtr() != ki::PseudoRandomEpochIdPtr() ||
      ki::PseudoRandomEpochIdPtr()->load() != ki::PseudoRandomEpochId()) {
    Violation("wrong-epoch", "the epoch id and the value at its address differ");
  }
  g = nullptr;
}
vsim::Scenario s1("ids", P12);

// ---- sets -------------------------------------------------------------------

struct Model {
  bool small = false;
  std::set<AllocationId> big;
};

void CheckSet(const AllocationIdSet& s, const Model& m, const char* what) {
  if (s.contains_small_allocation_id() != m.small) Violation("set-small", "%s: small allocations: %d instead of %d", what, s.contains_small_allocation_id(), m.small);
  std::set<AllocationId> got(s.begin(), s.end());
  if (s.size() != m.big.size() || got != m.big || s.ids().size() != s.size() || s.empty() != m.big.empty()) {
    Violation("set-contents", "%s: the set has %zu allocations (%zu different ones) instead of %zu", what, s.size(), got.size(), m.big.size());
  }
}

void P12Sets() {
  IdWorld world;
  g = &world;
  // A universe of allocations in which the same ones come up again and again.
  std::vector<AllocationId> uni;
  int universe = 3 + Pick(80);
  for (int i = 0; i < universe; ++i) {
    int w = Pick(6);
    uni.push_back(w == 0 ? AllocationId(One((Kind)Pick(4))) : Many((Kind)Pick(4), w == 1 ? 2 : AnySize()));
  }
  // Not in the order in which they were made.
  for (int i = universe - 1; i > 0; --i) std::swap(uni[i], uni[Pick(i + 1)]);
  std::vector<AllocationIdSet> sets(1 + Pick(3));
  std::vector<Model> models(sets.size());
  auto insert = [&](Model& m, AllocationId a) {
    if (a.IsSmall()) return !std::exchange(m.small, true);
    return m.big.insert(a).second;
  };
  int ops = 2 + Pick(10);
  for (int i = 0; i < ops; ++i) {
    int k = Pick(sets.size());
    switch (Pick(6)) {
      case 0:
      case 1: {
        int n = 1 + Pick(50);
        int from = Pick(universe), step = 1 + Pick(3);
        for (int j = 0; j < n; ++j) {
          AllocationId a = uni[(from + j * step) % universe];
          if (sets[k].Insert(a) != insert(models[k], a)) Violation("set-insert", "Insert() is wrong about an allocation being new");
        }
        CheckSet(sets[k], models[k], "insert");
        break;
      }
      case 2:
      case 3: {
        int o = Pick(sets.size());
        sets[k].Insert(sets[o]);
        Model m = models[o];
        models[k].small |= m.small;
        models[k].big.insert(m.big.begin(), m.big.end());
        CheckSet(sets[k], models[k], "insert of a set");
        break;
      }
      case 4: {
        int n = Pick(45);
        int from = Pick(universe);
        std::vector<AllocationId> v;
        Model m;
        for (int j = 0; j < n; ++j) {
          AllocationId a = uni[(from + j * 2) % universe];
          v.push_back(a);
          insert(m, a);
        }
        if (n == 1 && Pick(2)) sets[k] = AllocationIdSet(v[0]);
        else sets[k] = AllocationIdSet(absl::Span<const AllocationId>(v));
        models[k] = m;
        CheckSet(sets[k], models[k], "construction");
        break;
      }
      case 5: {
        if (Pick(2)) {
          sets[k].InsertSmallAllocationId();
          models[k].small = true;
        } else {
          int o = Pick(sets.size());
          sets[k] = sets[o];
          models[k] = models[o];
        }
        CheckSet(sets[k], models[k], "copy");
        break;
      }
    }
    for (size_t a = 0; a < sets.size(); ++a) {
      for (size_t b = 0; b < sets.size(); ++b) {
        bool want = models[a].small == models[b].small && models[a].big == models[b].big;
        if ((sets[a] == sets[b]) != want) Violation("set-equality", "two sets (%zu and %zu allocations) compare %s", sets[a].size(), sets[b].size(), want ? "different" : "equal");
      }
    }
  }
  g = nullptr;
}
vsim::Scenario s2("idsets", P12Sets);

}  // namespace
}  // namespace sim

extern "C" {

uint64_t KoladataInternalPseudoRandomUint64() {
  vsim::Point();
  vsim::NoPreempt np;
  static uint64_t other = 0;
  uint64_t& n = sim::g ? sim::g->randoms : other;
  if (sim::g && sim::g->zeros > 0) {
    --sim::g->zeros;
    vsim::Count("random-zero");
    return 0;
  }
  // Different for every call, in the lowest 52 bits as well.
  return ++n * 0x9E3779B97F4A7C15ull | 1;
}

int KoladataInternalReseedPseudoRandom(std::seed_seq&&) {
  vsim::Point();
  return sim::g && sim::g->reseed_works ? 0 : -1;
}

}  // extern "C"
