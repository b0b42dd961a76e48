// A small model of CPython's C API: reference counted objects, a global
// interpreter lock that is a simulated mutex, and a pending exception per
// thread. Every call checks that the caller holds the lock; the counts are
// plain integers, so the race detector sees what the lock does not protect.
#ifndef SHIM_PYTHON_H_
#define SHIM_PYTHON_H_
#include <cstddef>
#include <cstdint>
#include <cstring>

using Py_ssize_t = std::ptrdiff_t;
struct PyTypeObject;
struct PyObject {
  Py_ssize_t ob_refcnt;
  PyTypeObject* ob_type;
};
struct PyVarObject {
  PyObject ob_base;
  Py_ssize_t ob_size;
};
#define PyObject_HEAD PyObject ob_base
#define PyObject_HEAD_INIT(type) {1, (type)},

using PyCFunction = PyObject* (*)(PyObject*, PyObject*);
using PyCFunctionWithKeywords = PyObject* (*)(PyObject*, PyObject*, PyObject*);
using PyCFunctionFastWithKeywords = PyObject* (*)(PyObject*, PyObject**, Py_ssize_t, PyObject*);
using destructor = void (*)(PyObject*);
using getiterfunc = PyObject* (*)(PyObject*);
using iternextfunc = PyObject* (*)(PyObject*);
using allocfunc = PyObject* (*)(PyTypeObject*, Py_ssize_t);
using freefunc = void (*)(void*);
struct PyMethodDef {
  const char* ml_name;
  PyCFunction ml_meth;
  int ml_flags;
  const char* ml_doc;
};
enum { METH_VARARGS = 1, METH_KEYWORDS = 2, METH_NOARGS = 4, METH_O = 8, METH_CLASS = 16, METH_STATIC = 32, METH_FASTCALL = 128 };
enum : unsigned long { Py_TPFLAGS_IMMUTABLETYPE = 1ul << 8, Py_TPFLAGS_BASETYPE = 1ul << 10, Py_TPFLAGS_READY = 1ul << 12, Py_TPFLAGS_DEFAULT = 0 };

struct PyTypeObject {
  PyVarObject ob_base;
  const char* tp_name;
  Py_ssize_t tp_basicsize, tp_itemsize;
  destructor tp_dealloc;
  unsigned long tp_flags;
  const char* tp_doc;
  Py_ssize_t tp_weaklistoffset;
  getiterfunc tp_iter;
  iternextfunc tp_iternext;
  PyMethodDef* tp_methods;
  PyTypeObject* tp_base;
  allocfunc tp_alloc;
  freefunc tp_free;
};

int PyType_Ready(PyTypeObject*);
inline bool PyType_HasFeature(PyTypeObject* t, unsigned long f) { return t->tp_flags & f; }
inline PyTypeObject* Py_TYPE(const PyObject* o) { return o->ob_type; }
inline bool Py_IS_TYPE(const PyObject* o, const PyTypeObject* t) { return o->ob_type == t; }

void Py_IncRef(PyObject*);
void Py_DecRef(PyObject*);
template <typename T> void Py_INCREF(T* o) { Py_IncRef((PyObject*)o); }
template <typename T> void Py_DECREF(T* o) { Py_DecRef((PyObject*)o); }
template <typename T> void Py_XINCREF(T* o) { if (o) Py_IncRef((PyObject*)o); }
template <typename T> void Py_XDECREF(T* o) { if (o) Py_DecRef((PyObject*)o); }
#define Py_CLEAR(o) do { auto* shim_o = (o); (o) = nullptr; Py_XDECREF(shim_o); } while (0)
PyObject* Py_NewRef(PyObject*);
void PyObject_ClearWeakRefs(PyObject*);
PyObject* Py_GenericAlias(PyObject*, PyObject*);

extern PyObject shim_py_none, shim_py_true, shim_py_false;
#define Py_None (&shim_py_none)
#define Py_True (&shim_py_true)
#define Py_False (&shim_py_false)
#define Py_RETURN_NONE return Py_NewRef(Py_None)
#define Py_RETURN_TRUE return Py_NewRef(Py_True)
#define Py_RETURN_FALSE return Py_NewRef(Py_False)

extern PyTypeObject PyLong_Type, PyFloat_Type, PyUnicode_Type, PyTuple_Type, PyList_Type, PyDict_Type, PyFunction_Type, PyBool_Type, PyType_Type;
PyObject* PyBool_FromLong(long);
PyObject* PyTuple_New(Py_ssize_t);
PyObject* PyList_New(Py_ssize_t);
void PyTuple_SET_ITEM(PyObject*, Py_ssize_t, PyObject*);
void PyList_SET_ITEM(PyObject*, Py_ssize_t, PyObject*);
PyObject* PyTuple_GET_ITEM(PyObject*, Py_ssize_t);
PyObject* PyList_GET_ITEM(PyObject*, Py_ssize_t);
Py_ssize_t PyTuple_GET_SIZE(PyObject*);
Py_ssize_t PyList_GET_SIZE(PyObject*);
PyObject* PyLong_FromLong(long);
PyObject* PyFloat_FromDouble(double);
PyObject* PyUnicode_FromString(const char*);
PyObject* PyUnicode_InternFromString(const char*);
PyObject* PyUnicode_FromStringAndSize(const char*, Py_ssize_t);
PyObject* PyUnicode_DecodeUTF8(const char*, Py_ssize_t, const char* errors);
// Only formats of %U and %s.
void PySys_FormatStdout(const char* fmt, ...);
struct PyModuleDef_Base {};
#define PyModuleDef_HEAD_INIT {}
struct PyModuleDef {
  PyModuleDef_Base m_base;
  const char* m_name;
  const char* m_doc;
  Py_ssize_t m_size;
  PyMethodDef* m_methods;
  void *m_slots, *m_traverse, *m_clear, *m_free;
};
PyObject* PyModule_Create(PyModuleDef*);
#define PyMODINIT_FUNC extern "C" PyObject*
const char* PyUnicode_AsUTF8AndSize(PyObject*, Py_ssize_t*);
double PyFloat_AsDouble(PyObject*);
size_t PyLong_AsSize_t(PyObject*);
long long PyLong_AsLongLong(PyObject*);
inline bool PyLong_Check(PyObject* o) { return Py_IS_TYPE(o, &PyLong_Type) || Py_IS_TYPE(o, &PyBool_Type); }
inline bool PyBool_Check(PyObject* o) { return Py_IS_TYPE(o, &PyBool_Type); }
int PyObject_IsTrue(PyObject*);
int PyCallable_Check(PyObject*);
PyObject* PyObject_CallNoArgs(PyObject*);
int PyArg_ParseTupleAndKeywords(PyObject* args, PyObject* kwargs, const char* fmt, char** kwlist, ...);

extern PyObject *PyExc_TypeError, *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_TimeoutError, *PyExc_AssertionError, *PyExc_OverflowError, *PyExc_SystemError, *PyExc_StopIteration, *PyExc_KeyboardInterrupt;
bool PyExceptionClass_Check(PyTypeObject*);
inline bool PyExceptionClass_Check(PyObject* o) { return PyExceptionClass_Check((PyTypeObject*)o); }
void PyErr_SetString(PyObject* type, const char* message);
void PyErr_SetObject(PyObject* type, PyObject* value);
void PyErr_SetNone(PyObject* type);
PyObject* PyErr_Format(PyObject* type, const char* fmt, ...);
PyObject* PyErr_Occurred();
void PyErr_Clear();
PyObject* PyErr_NoMemory();
void PyErr_WriteUnraisable(PyObject*);
PyObject* PyErr_GetRaisedException();
void PyErr_SetRaisedException(PyObject*);
void PyErr_Fetch(PyObject**, PyObject**, PyObject**);
void PyErr_Restore(PyObject*, PyObject*, PyObject*);
int PyGILState_Check();
#endif
