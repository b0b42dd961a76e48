// The scenario's view of the model of Python.
#ifndef SCEN_MINIPY_H_
#define SCEN_MINIPY_H_
#include <Python.h>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/cancellation.h"
#include "py/arolla/abc/py_qtype.h"
#include "py/arolla/abc/py_qvalue.h"
#include "py/arolla/py_utils/py_utils.h"

namespace minipy {
using arolla::python::AcquirePyGIL;
using arolla::python::PyObjectGILSafePtr;
using arolla::python::PyObjectPtr;
using arolla::python::ReleasePyGIL;

enum { kLivePy = 2 };

// A callable that runs `fn`, which returns a new reference or sets an exception.
PyObject* Function(std::function<PyObject*()> fn);
PyObject* Exception(PyObject* type, const std::string& msg);
PyTypeObject* TypeOf(PyObject* exception);
std::string Message(PyObject* exception);
// The status behind an exception that SetPyErrFromStatus() made.
const absl::Status* StatusOf(PyObject* exception);
std::string Repr(PyObject* exception);

// The outcome of a call: a value, or an exception.
struct Result {
  PyObjectPtr value;
  PyObjectPtr exc;
  bool ok() const { return value != nullptr; }
  bool Raised(PyObject* type) const { return exc != nullptr && (PyObject*)TypeOf(exc.get()) == type; }
};
using Kwargs = std::vector<std::pair<const char*, PyObject*>>;
// Calls a method, as `getattr(self, name)(*args, **kwargs)` would.
Result Call(PyObject* self, const char* name, const std::vector<PyObject*>& args = {}, const Kwargs& kwargs = {});
// Calls a function of a module.
Result CallFunction(PyCFunctionFastWithKeywords f, const std::vector<PyObject*>& args, const Kwargs& kwargs = {});
Result CallRaw(const std::function<PyObject*()>& f, const char* what);
Result CallClass(PyTypeObject* cls, const char* name, PyObject* arg);
// next(it): on exhaustion neither a value nor an exception.
Result Next(PyObject* it);

// Whether the calling thread installs cancellation contexts for Ctrl-C.
void HandlesSignals(bool yes);
// Presses Ctrl-C for a thread; whether a call of it was listening.
bool Interrupt(int thread);

// How often exceptions were reported as unraisable, by message.
std::map<std::string, int>& Unraisable();
// What sys.stdout.write() does; false when it raises.
extern bool (*g_stdout)(const std::string& text);
// Whether there is no memory for a string now.
extern bool (*g_no_memory)();
// May run other threads in between, as the interpreter does.
void Tick();
}  // namespace minipy
#endif
