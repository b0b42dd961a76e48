// The cache of slices by object, and the registry of slices, shared by threads
// of Python and of C++. Oracle: the results are those of a least-recently-used
// cache of that capacity that does the same operations one at a time.
#include <algorithm>
#include <any>
#include <map>
#include <optional>
#include <set>

#include <pybind11/pybind11.h>
#include "koladata/serving/slice_registry.h"
#include "world15.h"

namespace world15 {
namespace {
namespace schema = koladata::schema;
using arolla::TypedValue;

constexpr int64_t kObjects = 1000;
enum Kind { kInt, kText, kObj, kPyObj, kPy };  // an object with a Python fact; a Python item

// ---- the history -------------------------------------------------------------
struct Step {
  char what;  // 'g'et, 'p'ut, 'c'lear
  int key;
  int64_t value;  // put or seen; 0: none
};
struct Op {
  int64_t start, end;
  std::vector<Step> steps;
};
struct Lru {
  bool track;
  int64_t capacity;
  int64_t time = 0, last_value = 0;
  std::vector<std::vector<Op>> history;  // by thread
  std::map<int64_t, int> kinds;          // of the values
};

int64_t Weight(const Lru& w, int64_t value) {
  if (!w.track) return 1;
  int k = w.kinds.at(value);
  return k == kObj || k == kPyObj ? 2 : 1;
}
struct Entry {
  int key;
  int64_t value;
};
using Cache = std::vector<Entry>;  // most recent first
bool Apply(const Lru& w, Cache& c, const Step& s) {
  auto it = std::find_if(c.begin(), c.end(), [&](auto& e) { return e.key == s.key; });
  if (s.what == 'c') {
    c.clear();
  } else if (s.what == 'g') {
    if (it == c.end()) return s.value == 0;
    if (it->value != s.value) return false;
    std::rotate(c.begin(), it, it + 1);
  } else {
    if (it != c.end()) c.erase(it);
    c.insert(c.begin(), {s.key, s.value});
    int64_t total = 0;
    for (auto& e : c) total += Weight(w, e.value);
    while (total > w.capacity && c.size() > 1) {
      total -= Weight(w, c.back().value);
      c.pop_back();
    }
  }
  return true;
}
// Whether some order of the steps explains what was seen.
struct Search {
  const Lru& w;
  std::set<std::string> dead;
  std::vector<std::pair<size_t, size_t>> at;  // per thread: the operation, the step
  bool Go(const Cache& c) {
    bool all = true;
    int64_t min_end = INT64_MAX;
    for (size_t t = 0; t < w.history.size(); ++t) {
      if (at[t].first >= w.history[t].size()) continue;
      all = false;
      min_end = std::min(min_end, w.history[t][at[t].first].end);
    }
    if (all) return true;
    std::string key;
    for (auto& [o, s] : at) key += std::to_string(o) + "." + std::to_string(s) + ",";
    for (auto& e : c) key += ";" + std::to_string(e.key) + "=" + std::to_string(e.value);
    if (!dead.insert(key).second) return false;
    if (dead.size() > 200000) vsim::Limit("the history has too many orders");
    for (size_t t = 0; t < w.history.size(); ++t) {
      if (at[t].first >= w.history[t].size()) continue;
      const Op& op = w.history[t][at[t].first];
      if (op.start > min_end) continue;
      auto saved = at[t];
      Cache next = c;
      bool ok = true;
      if (op.steps.empty()) {
        at[t] = {saved.first + 1, 0};
      } else {
        ok = Apply(w, next, op.steps[saved.second]);
        at[t] = saved.second + 1 < op.steps.size() ? std::make_pair(saved.first, saved.second + 1) : std::make_pair(saved.first + 1, (size_t)0);
      }
      if (ok && Go(next)) return true;
      at[t] = saved;
    }
    return false;
  }
};
std::string Show(const Lru& w) {
  std::string r;
  for (size_t t = 0; t < w.history.size(); ++t) {
    r += " thread " + std::to_string(t) + ":";
    for (auto& o : w.history[t]) {
      r += " [" + std::to_string(o.start) + "-" + std::to_string(o.end);
      for (auto& s : o.steps) r += std::string(" ") + s.what + (s.what == 'c' ? "" : std::to_string(s.key) + "=" + std::to_string(s.value));
      r += "]";
    }
  }
  return r;
}

// ---- the calls -----------------------------------------------------------------
struct Object {
  pybind11::ClassInfo info;
  void* self;
};
// Calls a method with the GIL, as Python does.
struct Called {
  std::any value;
  PyObjectPtr exc;
};
Called CallMethod(Object& o, const char* name, const pybind11::Args& args) {
  Called r;
  auto it = o.info.methods.find(name);
  if (it == o.info.methods.end()) Violation("wrong-result", "no method %s", name);
  try {
    r.value = it->second(o.self, args);
  } catch (const pybind11::error_already_set&) {
    r.exc = PyObjectPtr::Own(PyErr_GetRaisedException());
    if (r.exc == nullptr) Violation("system-error", "%s raised without an exception", name);
  }
  arolla::python::CheckGil("the end of a call");
  if (PyErr_Occurred()) Violation("system-error", "%s leaves an exception behind", name);
  return r;
}

struct Keys {
  std::vector<int> keys;  // -1: missing
  DataSlice slice;
};
DataSlice::JaggedShape Shape(int n) {
  if (n == 4 && Pick(2)) return {2, 2};
  return {n};
}
Keys MakeKeys(int keys) {
  Keys k;
  int n = Pick(3) == 0 ? 0 : 1 + Pick(4);  // 0: an item
  std::vector<DataItem> items;
  int missing = Chance(1, 8) ? 1 : 8;  // one in so many
  for (int i = 0; i < std::max(n, 1); ++i) {
    k.keys.push_back(Chance(1, missing) ? -1 : Pick(keys));
    items.push_back(k.keys.back() < 0 ? DataItem() : DataItem(ObjectId{k.keys.back()}));
  }
  DataItem s(schema::kObject);
  k.slice = n == 0 ? *DataSlice::Create(items[0], s) : *DataSlice::Create(DataSliceImpl(items), Shape(n), s);
  return k;
}
// Values for the keys: the number of each, 0 where it is missing.
DataSlice MakeValues(Lru& w, const Keys& k, std::vector<int64_t>& ids) {
  bool one = k.slice.is_item() || Pick(3) == 0;  // broadcast
  int n = one ? 1 : k.keys.size();
  int kind = w.track && Pick(2) ? kObj + Pick(2) : Pick(5);
  auto bag = std::make_shared<DataBag>();
  bool has_bag = kind == kObj || kind == kPyObj || Chance(1, 4);
  std::vector<DataItem> items;
  for (int i = 0; i < n; ++i) {
    if (Chance(1, 8)) {
      ids.push_back(0);
      items.push_back(DataItem());
      continue;
    }
    int64_t id = ++w.last_value;
    w.kinds[id] = kind;
    ids.push_back(id);
    switch (kind) {
      case kInt: items.push_back(DataItem(id)); break;
      case kText: items.push_back(DataItem(arolla::Text(std::to_string(id)))); break;
      case kPy: items.push_back(DataItem(NewBox(id))); break;
      default:
        items.push_back(DataItem(ObjectId{kObjects + id}));
        bag->facts[ObjectId{kObjects + id}] = kind == kObj ? DataItem(id) : DataItem(NewBox(id));
    }
  }
  // Facts about other objects.
  if (has_bag) for (int i = Pick(3); i > 0; --i) bag->facts[ObjectId{-i}] = DataItem(int64_t{i});
  constexpr schema::DType kSchemas[] = {schema::kInt64, schema::kString, schema::kObject, schema::kObject, schema::kExpr};
  DataItem s(kSchemas[kind]);
  DataBagPtr b = has_bag ? bag : nullptr;
  if (one) {
    while (ids.size() < k.keys.size()) ids.push_back(ids[0]);
    return *DataSlice::Create(items[0], s, b);
  }
  return *DataSlice::Create(DataSliceImpl(items), k.slice.GetShape(), s, b);
}
int64_t Identify(const Lru& w, const DataItem& i, const DataBagPtr& bag) {
  if (!i.has_value()) return 0;
  int64_t id = 0;
  if (i.holds_value<int64_t>()) {
    id = i.value<int64_t>();
  } else if (i.holds_value<arolla::Text>()) {
    id = atoll(std::string(i.value<arolla::Text>()).c_str());
  } else if (i.holds_value<PyBox>()) {
    id = Unbox(i.value<PyBox>());
  } else if (i.holds_value<ObjectId>()) {
    id = i.value<ObjectId>().id - kObjects;
    const DataItem* f = bag ? bag->Find(i.value<ObjectId>()) : nullptr;
    if (!f) Violation("wrong-value", "the attributes of a cached object are lost");
    int64_t x = f->holds_value<int64_t>() ? f->value<int64_t>() : f->holds_value<PyBox>() ? Unbox(f->value<PyBox>()) : 0;
    if (x != id) Violation("wrong-value", "the attribute of object %ld is %ld", (long)id, (long)x);
  }
  if (!w.kinds.count(id)) Violation("wrong-value", "a cached value was never set");
  return id;
}

Op& Begin(Lru& w, int t) {
  vsim::NoPreempt np;
  w.history[t].push_back({++w.time, INT64_MAX, {}});
  return w.history[t].back();
}
void End(Lru& w, Op& op) {
  vsim::NoPreempt np;
  op.end = ++w.time;
}
void ExpectError(const Called& c, const char* what) {
  const absl::Status* s = c.exc == nullptr ? nullptr : StatusOf(c.exc.get());
  if (!s || !absl::IsInvalidArgument(*s)) Violation("wrong-result", "%s: %s", what, c.exc == nullptr ? "returned" : Repr(c.exc.get()).c_str());
}
void Get(Lru& w, int t, Object& o, int keys) {
  Keys k = MakeKeys(keys);
  Op& op = Begin(w, t);
  Called c = CallMethod(o, "__getitem__", {std::any(TypedValue::FromValue(k.slice))});
  if (c.exc != nullptr) Violation("wrong-result", "__getitem__ raised %s", Repr(c.exc.get()).c_str());
  auto* v = std::any_cast<TypedValue>(&c.value);
  auto r = v ? v->As<DataSlice>() : absl::StatusOr<const DataSlice&>(absl::InternalError(""));
  if (!r.ok()) Violation("wrong-result", "__getitem__ did not return a slice");
  if ((*r).GetShape() != k.slice.GetShape()) Violation("wrong-result", "the result of __getitem__ has another shape");
  schema::DType want = schema::kNone;
  for (size_t i = 0; i < k.keys.size(); ++i) {
    int64_t id = Identify(w, (*r).impl()[i], (*r).GetBag());
    if (k.keys[i] < 0) {
      if (id) Violation("wrong-value", "a missing key has a value");
      continue;
    }
    op.steps.push_back({'g', k.keys[i], id});
    if (!id) continue;
    constexpr schema::DType kSchemas[] = {schema::kInt64, schema::kString, schema::kObject, schema::kObject, schema::kExpr};
    auto s = kSchemas[w.kinds[id]];
    want = want == schema::kNone || want == s ? s : schema::kObject;
  }
  if (!((*r).GetSchemaImpl() == want)) Violation("wrong-result", "the result of __getitem__ has another schema");
  End(w, op);
}
void Set(Lru& w, int t, Object& o, int keys) {
  Keys k = MakeKeys(keys);
  std::vector<int64_t> ids;
  DataSlice v = MakeValues(w, k, ids);
  Op& op = Begin(w, t);
  for (size_t i = 0; i < k.keys.size(); ++i) {
    if (k.keys[i] >= 0 && ids[i]) op.steps.push_back({'p', k.keys[i], ids[i]});
  }
  TypedValue kv = TypedValue::FromValue(k.slice), vv = TypedValue::FromValue(v);
  v = DataSlice();
  Called c = CallMethod(o, "__setitem__", {std::any(std::move(kv)), std::any(std::move(vv))});
  if (c.exc != nullptr) Violation("wrong-result", "__setitem__ raised %s", Repr(c.exc.get()).c_str());
  End(w, op);
}
void Wrong(Object& o) {
  DataSlice k = Pick(2) ? *DataSlice::Create(DataItem(int64_t{5}), DataItem(schema::kInt64))
                        : *DataSlice::Create(DataSliceImpl({DataItem(int64_t{5}), Pick(2) ? DataItem(ObjectId{0}) : DataItem()}), {2}, DataItem(schema::kObject));
  TypedValue kv = TypedValue::FromValue(k);
  if (Pick(2)) {
    ExpectError(CallMethod(o, "__getitem__", {std::any(kv)}), "__getitem__ with keys that are no objects");
  } else {
    ExpectError(CallMethod(o, "__setitem__", {std::any(kv), std::any(TypedValue::FromValue(*DataSlice::Create(DataItem(int64_t{1}), DataItem(schema::kInt64))))}),
                "__setitem__ with keys that are no objects");
  }
}

// ---- the registry ---------------------------------------------------------------
const char* kNames[] = {"a", "b", "c"};
struct Registry {
  struct Key {
    int64_t winner = 0;  // once a registration has succeeded
    std::set<int64_t> offered;
    const DataSlice* ptr = nullptr;
  };
  Key keys[3];
  int64_t last = 0;
};
int64_t Number(const DataSlice* s) { return s->item().value<int64_t>(); }
void UseRegistry(Registry& g) {
  int n = Pick(3);
  std::string name = kNames[n];
  Registry::Key& k = g.keys[n];
  if (Pick(2)) {
    int64_t id, before;
    {
      vsim::NoPreempt np;
      id = ++g.last;
      before = k.winner;
      k.offered.insert(id);
    }
    auto s = koladata::serving::RegisterSlice(name, *DataSlice::Create(DataItem(id), DataItem(schema::kInt64)));
    vsim::NoPreempt np;
    if (s.ok()) {
      if (k.winner) Violation("registered-twice", "a second registration under a name succeeds");
      k.winner = id;
    } else if (!absl::IsAlreadyExists(s)) {
      Violation("wrong-result", "RegisterSlice: %s", s.ToString().c_str());
    } else {
      (void)before;
    }
  } else {
    int64_t before;
    std::set<int64_t> offered;
    {
      vsim::NoPreempt np;
      before = k.winner;
    }
    const DataSlice* p = koladata::serving::GetRegisteredSlice(name);
    vsim::NoPreempt np;
    if (!p) {
      if (before) Violation("registration-lost", "a registered slice is not found");
      return;
    }
    if (k.ptr && k.ptr != p) Violation("registration-lost", "a registered slice moved");
    k.ptr = p;
    if (before ? Number(p) != before : !k.offered.count(Number(p))) Violation("wrong-value", "a registered slice is another one");
  }
}
// Every name with an attempt must be there, with the value of the one success.
void CheckRegistry(Registry& g) {
  for (int n = 0; n < 3; ++n) {
    const DataSlice* p = koladata::serving::GetRegisteredSlice(kNames[n]);
    if (g.keys[n].offered.empty()) {
      if (p) Violation("wrong-value", "a slice was registered by nobody");
      continue;
    }
    if (!g.keys[n].winner || !p || Number(p) != g.keys[n].winner) Violation("registration-lost", "no registration under a name succeeded, or another slice is found");
  }
}

void Run() {
  auto w = std::make_shared<Lru>();
  auto reg = std::make_shared<Registry>();
  w->track = Pick(2);
  w->capacity = Chance(1, 8) ? 0 : 1 + Pick(w->track ? 6 : 4);
  int keys = 1 + Pick(4), threads = 2 + Pick(2);
  std::map<std::string, pybind11::ClassInfo> classes;
  pybind11::module_ m{&classes};
  Object o;
  {
    AcquirePyGIL gil;
    pybind11::shim_modules.at("clib")(m);
    if (!classes.count("LruCache")) Violation("wrong-result", "no class LruCache");
    o.info = classes.at("LruCache");
    o.self = o.info.ctor({std::any(size_t(w->capacity)), std::any(w->track)});
  }
  w->history.resize(threads);
  for (int t = 0; t < threads; ++t) {
    w->history[t].reserve(8);
    PyThread("python", [&o, w, reg, t, keys] {
      for (int i = 1 + Pick(4); i > 0; --i) {
        Tick();
        switch (Pick(8)) {
          case 0: case 1: case 2: Set(*w, t, o, keys); break;
          case 3: case 4: case 5: Get(*w, t, o, keys); break;
          case 6: {
            Op& op = Begin(*w, t);
            op.steps.push_back({'c', 0, 0});
            vsim::Count("clear");
            Called c = CallMethod(o, "clear", {});
            if (c.exc != nullptr) Violation("wrong-result", "clear() raised %s", Repr(c.exc.get()).c_str());
            End(*w, op);
            break;
          }
          default:
            if (Chance(1, 4)) Wrong(o);
            else for (int j = 1 + Pick(3); j > 0; --j) UseRegistry(*reg);
        }
      }
    });
  }
  if (Pick(3) == 0) {
    vsim::Spawn([reg] { for (int i = 1 + Pick(3); i > 0; --i) UseRegistry(*reg); }, "native");
  }
  vsim::Quiesce();
  CheckRegistry(*reg);
  {
    vsim::NoPreempt np;
    Search s{*w, {}, {}};
    s.at.assign(threads, {0, 0});
    if (!s.Go({})) Violation("not-a-cache", "no order of the operations explains the results (capacity %ld%s):%s", (long)w->capacity, w->track ? " in size" : "", Show(*w).c_str());
  }
  {
    AcquirePyGIL gil;
    o.info.dtor(o.self);
  }
  CheckPyLeaks();
}
vsim::Scenario s_lru("pylru", Run);
}  // namespace
}  // namespace world15
