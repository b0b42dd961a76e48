// What the scenarios of the shared caches have in common. These files are
// compiled with the stand-ins of cc/shim15 and with the namespace koladata
// renamed, because their model of a DataSlice is another one.
#ifndef SCEN15_WORLD15_H_
#define SCEN15_WORLD15_H_
#include <Python.h>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "../scen/minipy.h"
#include "koladata/data_slice.h"
#include "vsim.h"
namespace arolla {
extern int64_t g_lru_big_capacity;
extern size_t g_lru_hash_mask;
}
namespace sim {
[[noreturn]] void Violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void CheckNoLeaks();
}  // namespace sim
namespace world15 {
using namespace minipy;  // NOLINT
using koladata::DataBag;
using koladata::DataBagPtr;
using koladata::DataSlice;
using koladata::internal::DataItem;
using koladata::internal::DataSliceImpl;
using koladata::internal::ObjectId;
using koladata::internal::PyBox;
using sim::Violation;
using vsim::Chance;
using vsim::Pick;

// A Python object in a box that any thread may drop. Needs the GIL.
inline PyBox NewBox(int64_t id) {
  return std::make_shared<const PyObjectGILSafePtr>(PyObjectGILSafePtr::Own(PyLong_FromLong(id)));
}
inline int64_t Unbox(const PyBox& b) {
  AcquirePyGIL g;
  return PyLong_AsLongLong(b->get());
}
template <typename F>
void PyThread(const char* name, F f) {
  vsim::Spawn([f = std::move(f)]() mutable {
    AcquirePyGIL gil;
    f();
    auto last = std::move(f);
  }, name);
}
// Nothing of Python must be left.
inline void CheckPyLeaks() {
  if (int64_t n = vsim::Counter(kLivePy, 0)) Violation("leak", "%ld Python objects are still alive at the end", (long)n);
  sim::CheckNoLeaks();
}
}  // namespace world15
#endif
