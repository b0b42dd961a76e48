#include "minipy.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>

#include "arolla/util/status.h"
#include "common.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "py/arolla/abc/py_expr.h"
#include "py/arolla/abc/py_operator.h"
#include "py/koladata/functor/parallel/py_executor.h"
#include "py/koladata/functor/parallel/py_stream.h"

#define RAW __attribute__((no_sanitize("thread"), noinline))

namespace {
using sim::Violation;

// ---- the lock -----------------------------------------------------------------
int g_gil_owner = -1;
char g_gil;
thread_local int t_depth = 0;
thread_local PyObject* t_exc = nullptr;

RAW void TakeGil() {
  vsim::Point();
  while (g_gil_owner != -1) vsim::Block(&g_gil, "the GIL");
  g_gil_owner = vsim::CurrentThread();
  vsim::Acquire(&g_gil);
}
RAW void DropGil() {
  vsim::Release(&g_gil);
  g_gil_owner = -1;
  vsim::Wake(&g_gil);
  vsim::Point();
}
RAW bool HasGil() { return g_gil_owner == vsim::CurrentThread(); }

// ---- objects --------------------------------------------------------------------
struct Seq {
  PyObject_HEAD;
  std::vector<PyObject*> items;
};
struct Num {
  PyObject_HEAD;
  double v;
};
struct Text {
  PyObject_HEAD;
  std::string s;
};
struct Func {
  PyObject_HEAD;
  std::function<PyObject*()> fn;
  sim::Probe probe;
};
struct Exc {
  PyObject_HEAD;
  std::string msg;
  absl::Status status;
};
struct QTypeObj {
  PyObject_HEAD;
  arolla::QTypePtr t;
};
struct QValue {
  PyObject_HEAD;
  arolla::TypedValue v;
};

struct ExprObj {
  PyObject_HEAD;
  arolla::expr::ExprNodePtr e;
};
struct OperatorObj {
  PyObject_HEAD;
  arolla::expr::ExprOperatorPtr op;
};

template <typename T>
void Dealloc(PyObject* o) {
  vsim::Counter(minipy::kLivePy, -1);
  delete reinterpret_cast<T*>(o);
}
void SeqDealloc(PyObject* o) {
  for (PyObject* i : ((Seq*)o)->items) Py_XDECREF(i);
  Dealloc<Seq>(o);
}
template <typename T>
T* New(PyTypeObject* t) {
  arolla::python::CheckGil("an allocation");
  vsim::Counter(minipy::kLivePy, 1);
  T* o = new T();
  o->ob_base = {1, t};
  return o;
}

PyTypeObject Type(const char* name, destructor d, PyTypeObject* base = nullptr) {
  PyTypeObject t = {};
  t.ob_base.ob_base.ob_refcnt = 1;
  t.tp_name = name;
  t.tp_dealloc = d;
  t.tp_base = base;
  t.tp_flags = Py_TPFLAGS_READY;
  return t;
}
PyTypeObject NoneType = Type("NoneType", nullptr), BaseException = Type("BaseException", nullptr);
PyTypeObject ExprType = Type("Expr", Dealloc<ExprObj>), OperatorType = Type("Operator", Dealloc<OperatorObj>);
PyTypeObject QTypeType = Type("QType", Dealloc<QTypeObj>);
PyTypeObject QValueType = [] {
  PyTypeObject t = Type("QValue", nullptr);
  t.tp_dealloc = [](PyObject* o) {
    ((QValue*)o)->v.~TypedValue();
    Py_TYPE(o)->tp_free(o);
  };
  t.tp_basicsize = sizeof(QValue);
  t.tp_flags = Py_TPFLAGS_BASETYPE;
  return t;
}();
#define EXC(name) PyTypeObject name##T = Type(#name, Dealloc<Exc>, &BaseException)
EXC(TypeError); EXC(ValueError); EXC(RuntimeError); EXC(TimeoutError); EXC(AssertionError); EXC(OverflowError);
EXC(SystemError); EXC(StopIteration); EXC(KeyboardInterrupt); EXC(StatusError); EXC(MemoryError);

void SetExc(PyObject* e) {
  arolla::python::CheckGil("raising an exception");
  PyObject* old = t_exc;
  t_exc = e;
  Py_XDECREF(old);
}
std::map<int, arolla::CancellationContextPtr> g_signal;  // by thread
thread_local bool t_signals = false;

PyObject* DefaultAlloc(PyTypeObject* t, Py_ssize_t) {
  arolla::python::CheckGil("an allocation");
  vsim::Counter(minipy::kLivePy, 1);
  char* p = (char*)::operator new(t->tp_basicsize, std::align_val_t{16});
  memset(p, 0, t->tp_basicsize);
  PyObject* o = (PyObject*)p;
  o->ob_refcnt = 1;
  o->ob_type = t;
  return o;
}
void DefaultFree(void* p) {
  vsim::Counter(minipy::kLivePy, -1);
  ::operator delete(p, std::align_val_t{16});
}
}  // namespace

PyTypeObject PyLong_Type = Type("int", Dealloc<Num>), PyFloat_Type = Type("float", Dealloc<Num>), PyUnicode_Type = Type("str", Dealloc<Text>),
             PyTuple_Type = Type("tuple", SeqDealloc), PyList_Type = Type("list", SeqDealloc), PyDict_Type = Type("dict", SeqDealloc),
             PyFunction_Type = Type("function", Dealloc<Func>), PyBool_Type = Type("bool", nullptr), PyType_Type = Type("type", nullptr);
PyObject shim_py_none = {1, &NoneType}, shim_py_true = {1, &PyBool_Type}, shim_py_false = {1, &PyBool_Type};
#define DEF(name) PyObject* PyExc_##name = (PyObject*)&name##T
DEF(TypeError); DEF(ValueError); DEF(RuntimeError); DEF(TimeoutError); DEF(AssertionError); DEF(OverflowError);
DEF(SystemError); DEF(StopIteration); DEF(KeyboardInterrupt);

namespace arolla { void (*g_on_event_wait)(int64_t) = nullptr; }

namespace arolla::python {
RAW void CheckGil(const char* what) {
  if (!HasGil()) Violation("no-gil", "%s without the GIL", what);
}
RAW void GilAcquire() {
  if (t_depth++ == 0) TakeGil();
}
RAW void GilRelease() {
  CheckGil("releasing the GIL");
  if (--t_depth == 0) DropGil();
}
RAW int GilReleaseAll() {
  CheckGil("releasing the GIL");
  int d = t_depth;
  t_depth = 0;
  DropGil();
  return d;
}
RAW void GilRestore(int d) {
  if (t_depth != 0) Violation("no-gil", "the GIL is taken back by a thread that has it");
  TakeGil();
  t_depth = d;
}

PyObjectPtr PyErr_FetchRaisedException() { return PyObjectPtr::Own(PyErr_GetRaisedException()); }
void PyErr_RestoreRaisedException(PyObjectPtr e) { SetExc(e.release()); }

namespace {
struct Raw final : absl::ShimPayload {
  PyObjectGILSafePtr exc;
};
}  // namespace
std::nullptr_t SetPyErrFromStatusT::operator()(const absl::Status& s) const {
  CheckGil("SetPyErrFromStatus");
  if (s.ok()) Violation("ok-status-raised", "an exception is raised from an OK status");
  const absl::Status* at = &s;
  while (auto* cause = GetCause(*at)) at = cause;
  if (auto* raw = dynamic_cast<const Raw*>(at->payload())) {
    PyErr_RestoreRaisedException(PyObjectPtr::NewRef(raw->exc.get()));
  } else {
    Exc* e = New<Exc>(&StatusErrorT);
    e->msg = std::string(s.message());
    e->status = s;
    SetExc((PyObject*)e);
  }
  return nullptr;
}
absl::Status StatusWithRawPyErr(absl::StatusCode code, absl::string_view message) {
  PyObject* e = PyErr_GetRaisedException();
  if (e == nullptr) Violation("harness", "no exception is set");
  auto raw = std::make_shared<Raw>();
  raw->exc = PyObjectGILSafePtr::Own(e);
  return absl::Status(code, message, std::move(raw));
}
PyCancellationScope::PyCancellationScope() {
  CheckGil("a cancellation scope");
  if (CancellationContext::active_cancellation_scope_guard() != nullptr || !t_signals) return;
  auto ctx = CancellationContext::Make();
  guard_.emplace(ctx);
  vsim::NoPreempt np;
  g_signal[vsim::CurrentThread()] = ctx;
}
PyCancellationScope::~PyCancellationScope() {
  CheckGil("the end of a cancellation scope");
  if (!guard_) return;
  {
    vsim::NoPreempt np;
    g_signal.erase(vsim::CurrentThread());
  }
  guard_.reset();
}

PyTypeObject* PyQValueType() {
  PyType_Ready(&QValueType);
  return &QValueType;
}
bool IsPyQValueInstance(PyObject* o) {
  CheckGil("IsPyQValueInstance");
  for (PyTypeObject* t = Py_TYPE(o); t; t = t->tp_base) if (t == &QValueType) return true;
  return false;
}
const TypedValue& UnsafeUnwrapPyQValue(PyObject* o) {
  if (!IsPyQValueInstance(o)) Violation("crash", "a %s is taken for a QValue", Py_TYPE(o)->tp_name);
  return ((QValue*)o)->v;
}
const TypedValue* UnwrapPyQValue(PyObject* o) {
  if (IsPyQValueInstance(o)) return &((QValue*)o)->v;
  PyErr_SetString(PyExc_TypeError, "expected a QValue");
  return nullptr;
}
PyObject* WrapAsPyQValue(TypedValue v) {
  PyTypeObject* t = PyQValueType();
  if (v.GetType() == GetQType<koladata::functor::parallel::ExecutorPtr>()) {
    t = koladata::python::PyExecutorType();
  } else if (koladata::functor::parallel::IsStreamQType(v.GetType())) {
    t = koladata::python::PyStreamType();
  }
  PyObject* o = t->tp_alloc(t, 0);
  new (&((QValue*)o)->v) TypedValue(std::move(v));
  return o;
}
QTypePtr UnwrapPyQType(PyObject* o) {
  if (Py_IS_TYPE(o, &QTypeType)) return ((QTypeObj*)o)->t;
  PyErr_SetString(PyExc_TypeError, "expected a QType");
  return nullptr;
}
PyObject* WrapAsPyQType(QTypePtr t) {
  auto* o = New<QTypeObj>(&QTypeType);
  o->t = t;
  return (PyObject*)o;
}
expr::ExprNodePtr UnwrapPyExpr(PyObject* o) {
  if (Py_IS_TYPE(o, &ExprType)) return ((ExprObj*)o)->e;
  PyErr_SetString(PyExc_TypeError, "expected an expression");
  return nullptr;
}
PyObject* WrapAsPyExpr(expr::ExprNodePtr e) {
  auto* o = New<ExprObj>(&ExprType);
  o->e = std::move(e);
  return (PyObject*)o;
}
expr::ExprOperatorPtr ParseArgPyOperator(const char* fn, PyObject* o) {
  if (Py_IS_TYPE(o, &OperatorType)) return ((OperatorObj*)o)->op;
  PyErr_SetString(PyExc_TypeError, "expected an operator");
  return nullptr;
}
PyObject* WrapAsPyOperator(expr::ExprOperatorPtr op) {
  auto* o = New<OperatorObj>(&OperatorType);
  o->op = std::move(op);
  return (PyObject*)o;
}
}  // namespace arolla::python

using arolla::python::CheckGil;

int PyType_Ready(PyTypeObject* t) {
  CheckGil("PyType_Ready");
  if (t->tp_flags & Py_TPFLAGS_READY) return 0;
  if (PyTypeObject* b = t->tp_base) {
    if (!t->tp_basicsize) t->tp_basicsize = b->tp_basicsize;
    if (!t->tp_dealloc) t->tp_dealloc = b->tp_dealloc;
  }
  if (!t->tp_alloc) t->tp_alloc = DefaultAlloc;
  if (!t->tp_free) t->tp_free = DefaultFree;
  t->tp_flags |= Py_TPFLAGS_READY;
  return 0;
}
void Py_IncRef(PyObject* o) {
  CheckGil("a reference is taken");
  if (o->ob_refcnt <= 0) Violation("use-after-free", "a reference to a dead %s is taken", Py_TYPE(o)->tp_name);
  ++o->ob_refcnt;
}
void Py_DecRef(PyObject* o) {
  CheckGil("a reference is dropped");
  if (o->ob_refcnt <= 0) Violation("use-after-free", "a dead %s is dropped again", Py_TYPE(o)->tp_name);
  if (--o->ob_refcnt == 0) {
    if (!Py_TYPE(o)->tp_dealloc) Violation("use-after-free", "%s lost its last reference", Py_TYPE(o)->tp_name);
    Py_TYPE(o)->tp_dealloc(o);
  }
}
PyObject* Py_NewRef(PyObject* o) {
  Py_IncRef(o);
  return o;
}
void PyObject_ClearWeakRefs(PyObject*) { CheckGil("PyObject_ClearWeakRefs"); }
PyObject* Py_GenericAlias(PyObject* o, PyObject*) { return Py_NewRef(o); }
PyObject* PyBool_FromLong(long v) { return Py_NewRef(v ? Py_True : Py_False); }
static PyObject* NewSeq(PyTypeObject* t, Py_ssize_t n) {
  auto* o = New<Seq>(t);
  o->items.assign(n, nullptr);
  return (PyObject*)o;
}
PyObject* PyTuple_New(Py_ssize_t n) { return NewSeq(&PyTuple_Type, n); }
PyObject* PyList_New(Py_ssize_t n) { return NewSeq(&PyList_Type, n); }
static PyObject*& Item(PyObject* o, Py_ssize_t i) {
  CheckGil("an item access");
  auto& v = ((Seq*)o)->items;
  if (i < 0 || i >= (Py_ssize_t)v.size()) Violation("crash", "index %ld of a %s of %ld", (long)i, Py_TYPE(o)->tp_name, (long)v.size());
  return v[i];
}
void PyTuple_SET_ITEM(PyObject* o, Py_ssize_t i, PyObject* v) { Item(o, i) = v; }
void PyList_SET_ITEM(PyObject* o, Py_ssize_t i, PyObject* v) { Item(o, i) = v; }
PyObject* PyTuple_GET_ITEM(PyObject* o, Py_ssize_t i) { return Item(o, i); }
PyObject* PyList_GET_ITEM(PyObject* o, Py_ssize_t i) { return Item(o, i); }
Py_ssize_t PyTuple_GET_SIZE(PyObject* o) { return ((Seq*)o)->items.size(); }
Py_ssize_t PyList_GET_SIZE(PyObject* o) { return ((Seq*)o)->items.size(); }
PyObject* PyLong_FromLong(long v) {
  auto* o = New<Num>(&PyLong_Type);
  o->v = v;
  return (PyObject*)o;
}
PyObject* PyFloat_FromDouble(double v) {
  auto* o = New<Num>(&PyFloat_Type);
  o->v = v;
  return (PyObject*)o;
}
PyObject* PyUnicode_FromString(const char* s) {
  auto* o = New<Text>(&PyUnicode_Type);
  o->s = s;
  return (PyObject*)o;
}
static bool Utf8(const std::string& s, std::string* fixed) {
  bool ok = true;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    bool good = n > 0 && i + n <= s.size();
    for (size_t k = 1; good && k < n; ++k) good = ((unsigned char)s[i + k] & 0xc0) == 0x80;
    if (good) {
      fixed->append(s, i, n);
      i += n;
    } else {
      ok = false;
      fixed->append("\xef\xbf\xbd");
      ++i;
    }
  }
  return ok;
}
PyObject* PyUnicode_DecodeUTF8(const char* s, Py_ssize_t n, const char* errors) {
  CheckGil("PyUnicode_DecodeUTF8");
  if (minipy::g_no_memory && minipy::g_no_memory()) return PyErr_NoMemory();
  std::string fixed;
  if (!Utf8(std::string(s, n), &fixed)) {
    std::string e = errors ? errors : "strict";
    if (e == "strict") {
      PyErr_SetString(PyExc_ValueError, "invalid start byte");
      return nullptr;
    }
    if (e == "ignore") {
      size_t at;
      while ((at = fixed.find("\xef\xbf\xbd")) != fixed.npos) fixed.erase(at, 3);
    }
  }
  auto* o = New<Text>(&PyUnicode_Type);
  o->s = fixed;
  return (PyObject*)o;
}
PyObject* PyUnicode_FromStringAndSize(const char* s, Py_ssize_t n) { return PyUnicode_DecodeUTF8(s, n, nullptr); }
void PySys_FormatStdout(const char* fmt, ...) {
  CheckGil("PySys_FormatStdout");
  va_list ap;
  va_start(ap, fmt);
  std::string out;
  for (const char* p = fmt; *p; ++p) {
    if (*p != '%') {
      out += *p;
    } else if (*++p == 'U') {
      PyObject* u = va_arg(ap, PyObject*);
      if (!u || !Py_IS_TYPE(u, &PyUnicode_Type)) Violation("crash", "PySys_FormatStdout() of something that is no string");
      out += ((Text*)u)->s;
    } else if (*p == 's') {
      out += va_arg(ap, const char*);
    } else {
      Violation("harness", "PySys_FormatStdout: only %%U and %%s are modelled");
    }
  }
  va_end(ap);
  // An exception that is pending stays; one of write() goes nowhere.
  PyObject* exc = PyErr_GetRaisedException();
  if (minipy::g_stdout) minipy::g_stdout(out);
  if (exc) PyErr_SetRaisedException(exc);
}
PyObject* PyModule_Create(PyModuleDef*) { return Py_NewRef(Py_None); }
namespace minipy {
bool (*g_stdout)(const std::string&) = nullptr;
bool (*g_no_memory)() = nullptr;
}  // namespace minipy
PyObject* PyUnicode_InternFromString(const char* s) {
  PyObject* o = PyUnicode_FromString(s);
  vsim::Counter(minipy::kLivePy, -1);  // lives for ever
  return o;
}
const char* PyUnicode_AsUTF8AndSize(PyObject* o, Py_ssize_t* n) {
  CheckGil("PyUnicode_AsUTF8AndSize");
  if (!Py_IS_TYPE(o, &PyUnicode_Type)) {
    PyErr_SetString(PyExc_TypeError, "bad argument type for built-in operation");
    return nullptr;
  }
  if (n) *n = ((Text*)o)->s.size();
  return ((Text*)o)->s.c_str();
}
double PyFloat_AsDouble(PyObject* o) {
  CheckGil("PyFloat_AsDouble");
  if (Py_IS_TYPE(o, &PyLong_Type) || Py_IS_TYPE(o, &PyFloat_Type)) return ((Num*)o)->v;
  if (PyBool_Check(o)) return o == Py_True;
  PyErr_SetString(PyExc_TypeError, "must be real number");
  return -1;
}
size_t PyLong_AsSize_t(PyObject* o) {
  CheckGil("PyLong_AsSize_t");
  if (!Py_IS_TYPE(o, &PyLong_Type)) {
    PyErr_SetString(PyExc_TypeError, "an integer is required");
    return (size_t)-1;
  }
  if (((Num*)o)->v < 0) {
    PyErr_SetString(PyExc_OverflowError, "can't convert negative value to size_t");
    return (size_t)-1;
  }
  return (size_t)((Num*)o)->v;
}
long long PyLong_AsLongLong(PyObject* o) {
  if (!Py_IS_TYPE(o, &PyLong_Type)) {
    PyErr_SetString(PyExc_TypeError, "an integer is required");
    return -1;
  }
  return (long long)((Num*)o)->v;
}
int PyObject_IsTrue(PyObject* o) { return o == Py_True; }
int PyCallable_Check(PyObject* o) { return Py_IS_TYPE(o, &PyFunction_Type); }
PyObject* PyObject_CallNoArgs(PyObject* f) {
  CheckGil("a call");
  if (t_exc) Violation("call-while-raising", "a function is called while the exception %s is being raised", minipy::Repr(t_exc).c_str());
  if (!PyCallable_Check(f)) {
    PyErr_SetString(PyExc_TypeError, "not callable");
    return nullptr;
  }
  Py_IncRef(f);
  PyObject* r = ((Func*)f)->fn();
  Py_DecRef(f);
  if ((r == nullptr) == (t_exc == nullptr)) Violation("harness", "a function returns neither or both of a value and an exception");
  return r;
}
int PyArg_ParseTupleAndKeywords(PyObject* args, PyObject* kwargs, const char* fmt, char** kwlist, ...) {
  CheckGil("PyArg_ParseTupleAndKeywords");
  va_list ap;
  va_start(ap, kwlist);
  size_t nargs = args ? ((Seq*)args)->items.size() : 0, used = nargs;
  bool optional = false, ok = true;
  size_t i = 0;
  for (const char* f = fmt; *f && *f != ':' && *f != ';' && ok; ++f) {
    if (*f == '|') {
      optional = true;
      continue;
    }
    if (*f == '$') continue;
    if (*f != 'O') Violation("harness", "unsupported format %s", fmt);
    PyObject** out = va_arg(ap, PyObject**);
    PyObject* v = nullptr;
    if (i < nargs) v = ((Seq*)args)->items[i];
    if (kwargs) {
      auto& kv = ((Seq*)kwargs)->items;
      for (size_t k = 0; k < kv.size(); k += 2) {
        if (((Text*)kv[k])->s == kwlist[i]) {
          if (v) ok = false;
          v = kv[k + 1];
          ++used;
        }
      }
    }
    if (v) *out = v;
    else if (!optional) ok = false;
    ++i;
  }
  va_end(ap);
  if (nargs > i || used != nargs + (kwargs ? ((Seq*)kwargs)->items.size() / 2 : 0)) ok = false;
  if (!ok) PyErr_SetString(PyExc_TypeError, "wrong arguments");
  return ok;
}

bool PyExceptionClass_Check(PyTypeObject* t) { return t->tp_base == &BaseException || t == &BaseException; }
void PyErr_SetString(PyObject* type, const char* message) { SetExc(minipy::Exception(type, message)); }
void PyErr_SetObject(PyObject* type, PyObject* value) {
  SetExc(minipy::Exception(type, value && Py_IS_TYPE(value, &PyUnicode_Type) ? ((Text*)value)->s : ""));
}
void PyErr_SetNone(PyObject* type) { PyErr_SetObject(type, nullptr); }
PyObject* PyErr_Format(PyObject* type, const char* fmt, ...) {
  PyErr_SetString(type, fmt);
  return nullptr;
}
PyObject* PyErr_Occurred() {
  CheckGil("PyErr_Occurred");
  return t_exc ? (PyObject*)Py_TYPE(t_exc) : nullptr;
}
void PyErr_Clear() { SetExc(nullptr); }
PyObject* PyErr_NoMemory() {
  PyErr_SetString((PyObject*)&MemoryErrorT, "");
  return nullptr;
}
PyObject* PyErr_GetRaisedException() {
  CheckGil("PyErr_GetRaisedException");
  PyObject* e = t_exc;
  t_exc = nullptr;
  return e;
}
void PyErr_SetRaisedException(PyObject* e) { SetExc(e); }
void PyErr_Fetch(PyObject** t, PyObject** v, PyObject** tb) {
  *v = PyErr_GetRaisedException();
  *t = *v ? Py_NewRef((PyObject*)Py_TYPE(*v)) : nullptr;
  *tb = nullptr;
}
void PyErr_Restore(PyObject* t, PyObject* v, PyObject* tb) {
  Py_XDECREF(t);
  Py_XDECREF(tb);
  SetExc(v);
}
void PyErr_WriteUnraisable(PyObject*) {
  CheckGil("PyErr_WriteUnraisable");
  PyObject* e = PyErr_GetRaisedException();
  if (!e) Violation("harness", "no exception is set");
  {
    vsim::NoPreempt np;
    ++minipy::Unraisable()[minipy::Message(e)];
  }
  Py_DecRef(e);
}
int PyGILState_Check() { return HasGil(); }

namespace minipy {
PyObject* Function(std::function<PyObject*()> fn) {
  auto* o = New<Func>(&PyFunction_Type);
  o->fn = std::move(fn);
  return (PyObject*)o;
}
PyObject* Exception(PyObject* type, const std::string& msg) {
  auto* e = New<Exc>((PyTypeObject*)type);
  e->msg = msg;
  return (PyObject*)e;
}
PyTypeObject* TypeOf(PyObject* e) { return Py_TYPE(e); }
std::string Message(PyObject* e) { return ((Exc*)e)->msg; }
const absl::Status* StatusOf(PyObject* e) { return Py_TYPE(e) == &StatusErrorT ? &((Exc*)e)->status : nullptr; }
std::string Repr(PyObject* e) {
  if (!e) return "no exception";
  std::string r = std::string(Py_TYPE(e)->tp_name) + "(" + ((Exc*)e)->msg + ")";
  if (auto* s = StatusOf(e)) r += " code " + std::to_string((int)s->code());
  return r;
}
Result CallFunction(PyCFunctionFastWithKeywords f, const std::vector<PyObject*>& args, const Kwargs& kwargs) {
  CheckGil("a call");
  std::vector<PyObject*> a = args;
  auto names = PyObjectPtr();
  if (!kwargs.empty()) names = PyObjectPtr::Own(PyTuple_New(kwargs.size()));
  for (size_t i = 0; i < kwargs.size(); ++i) {
    a.push_back(kwargs[i].second);
    PyTuple_SET_ITEM(names.get(), i, PyUnicode_FromString(kwargs[i].first));
  }
  return CallRaw([&] { return f(nullptr, a.data(), args.size(), names.get()); }, "a function");
}
Result CallRaw(const std::function<PyObject*()>& f, const char* what) {
  PyObject* v = f();
  CheckGil("the end of a call");
  Result r;
  r.value = PyObjectPtr::Own(v);
  r.exc = PyObjectPtr::Own(PyErr_GetRaisedException());
  if (v && r.exc != nullptr) Violation("system-error", "%s returned a result with an exception set: %s", what, Repr(r.exc.get()).c_str());
  if (!v && r.exc == nullptr) Violation("system-error", "%s returned NULL without setting an exception", what);
  return r;
}
namespace {
PyMethodDef* Find(PyTypeObject* t, const char* name) {
  for (; t; t = t->tp_base) {
    for (PyMethodDef* m = t->tp_methods; m && m->ml_name; ++m) if (!strcmp(m->ml_name, name)) return m;
  }
  Violation("harness", "no method %s", name);
}
Result Done(PyObject* v, const char* what) {
  Result r;
  r.value = PyObjectPtr::Own(v);
  r.exc = PyObjectPtr::Own(PyErr_GetRaisedException());
  if (v && r.exc != nullptr) Violation("system-error", "%s returned a result with an exception set: %s", what, Repr(r.exc.get()).c_str());
  return r;
}
}  // namespace
Result Call(PyObject* self, const char* name, const std::vector<PyObject*>& args, const Kwargs& kwargs) {
  CheckGil("a method call");
  PyMethodDef* m = Find(Py_TYPE(self), name);
  PyObject* v;
  auto keep = PyObjectPtr::NewRef(self);
  if (m->ml_flags & METH_NOARGS) {
    v = m->ml_meth(self, nullptr);
  } else if (m->ml_flags & METH_O) {
    v = m->ml_meth(self, args[0]);
  } else if (m->ml_flags & METH_FASTCALL) {
    std::vector<PyObject*> a = args;
    auto names = PyObjectPtr();
    if (!kwargs.empty()) names = PyObjectPtr::Own(PyTuple_New(kwargs.size()));
    for (size_t i = 0; i < kwargs.size(); ++i) {
      a.push_back(kwargs[i].second);
      PyTuple_SET_ITEM(names.get(), i, PyUnicode_FromString(kwargs[i].first));
    }
    v = reinterpret_cast<PyCFunctionFastWithKeywords>(m->ml_meth)(self, a.data(), args.size(), names.get());
  } else {
    auto a = PyObjectPtr::Own(PyTuple_New(args.size()));
    for (size_t i = 0; i < args.size(); ++i) PyTuple_SET_ITEM(a.get(), i, Py_NewRef(args[i]));
    auto d = PyObjectPtr();
    if (!kwargs.empty()) d = PyObjectPtr::Own(NewSeq(&PyDict_Type, 2 * kwargs.size()));
    for (size_t i = 0; i < kwargs.size(); ++i) {
      ((Seq*)d.get())->items[2 * i] = PyUnicode_FromString(kwargs[i].first);
      ((Seq*)d.get())->items[2 * i + 1] = Py_NewRef(kwargs[i].second);
    }
    v = reinterpret_cast<PyCFunctionWithKeywords>(m->ml_meth)(self, a.get(), d.get());
  }
  Result r = Done(v, name);
  if (!v && r.exc == nullptr) Violation("system-error", "%s returned NULL without setting an exception", name);
  return r;
}
Result CallClass(PyTypeObject* cls, const char* name, PyObject* arg) {
  PyMethodDef* m = Find(cls, name);
  return Done(m->ml_meth((PyObject*)cls, arg), name);
}
Result Next(PyObject* it) {
  auto keep = PyObjectPtr::NewRef(it);
  return Done(Py_TYPE(it)->tp_iternext(it), "next()");
}
void HandlesSignals(bool yes) { t_signals = yes; }
bool Interrupt(int thread) {
  arolla::CancellationContextPtr c;
  {
    vsim::NoPreempt np;
    auto it = g_signal.find(thread);
    if (it == g_signal.end()) return false;
    c = it->second;
  }
  c->Cancel(absl::CancelledError("interrupted"));
  return true;
}
std::map<std::string, int>& Unraisable() {
  static auto* m = new std::map<std::string, int>();
  return *m;
}
void Tick() {
  if (sim::Pick(3) == 0) return;
  ReleasePyGIL g;
  sim::Pause();
}
}  // namespace minipy
