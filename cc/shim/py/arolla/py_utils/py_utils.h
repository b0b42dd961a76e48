#ifndef SHIM_PY_UTILS_H_
#define SHIM_PY_UTILS_H_
#include <Python.h>
#include <optional>
#include <utility>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "arolla/util/cancellation.h"
namespace arolla::python {
void GilAcquire();  // nests, as PyGILState_Ensure()
void GilRelease();
int GilReleaseAll();  // as PyEval_SaveThread()
void GilRestore(int depth);
void CheckGil(const char* what);
inline void DCheckPyGIL() { CheckGil("a function of the module"); }

class AcquirePyGIL {
 public:
  AcquirePyGIL() { GilAcquire(); }
  ~AcquirePyGIL() { GilRelease(); }
  AcquirePyGIL(const AcquirePyGIL&) = delete;
};
class ReleasePyGIL {
 public:
  ReleasePyGIL() : depth_(GilReleaseAll()) {}
  ~ReleasePyGIL() { GilRestore(depth_); }
  ReleasePyGIL(const ReleasePyGIL&) = delete;
 private:
  int depth_;
};

template <bool kSafe>
class PyObjectPtrT {
 public:
  PyObjectPtrT() = default;
  PyObjectPtrT(std::nullptr_t) {}
  static PyObjectPtrT Own(PyObject* o) {
    PyObjectPtrT r;
    r.p_ = o;
    return r;
  }
  static PyObjectPtrT NewRef(PyObject* o) {
    if constexpr (kSafe) {
      AcquirePyGIL g;
      Py_XINCREF(o);
    } else {
      Py_XINCREF(o);
    }
    return Own(o);
  }
  PyObjectPtrT(const PyObjectPtrT& o) : PyObjectPtrT(NewRef(o.p_)) {}
  PyObjectPtrT(PyObjectPtrT&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  PyObjectPtrT& operator=(PyObjectPtrT o) noexcept {
    std::swap(p_, o.p_);
    return *this;
  }
  ~PyObjectPtrT() { reset(); }
  void reset() {
    PyObject* p = std::exchange(p_, nullptr);
    if (!p) return;
    if constexpr (kSafe) {
      AcquirePyGIL g;
      Py_DECREF(p);
    } else {
      Py_DECREF(p);
    }
  }
  PyObject* get() const { return p_; }
  PyObject* release() { return std::exchange(p_, nullptr); }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const PyObjectPtrT& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator!=(const PyObjectPtrT& a, std::nullptr_t) { return a.p_ != nullptr; }
 private:
  PyObject* p_ = nullptr;
};
using PyObjectPtr = PyObjectPtrT<false>;
using PyObjectGILSafePtr = PyObjectPtrT<true>;

PyObjectPtr PyErr_FetchRaisedException();
void PyErr_RestoreRaisedException(PyObjectPtr e);

// Sets the exception that the status stands for; returns null.
struct SetPyErrFromStatusT {
  std::nullptr_t operator()(const absl::Status& s) const;
};
inline constexpr SetPyErrFromStatusT SetPyErrFromStatus;
// A status that carries the pending exception (and clears it).
absl::Status StatusWithRawPyErr(absl::StatusCode code, absl::string_view message);

// Installs a cancellation context for the call when there is none and the
// thread handles Ctrl-C.
class [[nodiscard]] PyCancellationScope {
 public:
  PyCancellationScope();
  ~PyCancellationScope();
  PyCancellationScope(const PyCancellationScope&) = delete;
 private:
  std::optional<CancellationContext::ScopeGuard> guard_;
};
}  // namespace arolla::python
#endif
