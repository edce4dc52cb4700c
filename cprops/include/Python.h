/* Stand-in for the part of the CPython API that clib/xmlstring.c can use, for symbolic runs (see pystub.h). */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
typedef ptrdiff_t Py_ssize_t;
typedef uint32_t Py_UCS4;
typedef uint16_t Py_UCS2;
typedef uint8_t Py_UCS1;
typedef int Py_UNICODE;
#ifndef NMAX
#define NMAX 8
#endif
typedef struct _object { Py_ssize_t ob_refcnt; Py_ssize_t length; Py_UCS4 cp[NMAX + 2]; } PyObject;
typedef PyObject PyUnicodeObject;
typedef struct { void *buf; Py_ssize_t len; PyObject *obj; } Py_buffer;
extern PyObject true_object, false_object, none_object, exc_object;
#define Py_True (&true_object)
#define Py_False (&false_object)
#define Py_None (&none_object)
#define PyExc_ValueError (&exc_object)
#define PyExc_TypeError (&exc_object)
#define PyExc_UnicodeError (&exc_object)
#define PyExc_UnicodeDecodeError (&exc_object)
#define PyExc_LookupError (&exc_object)
#define PyExc_Exception (&exc_object)
#define PyExc_RuntimeError (&exc_object)
#define PyExc_MemoryError (&exc_object)
void _Py_Dealloc(PyObject *o);
#define IS_CONST(o) ((o) == Py_True || (o) == Py_False || (o) == Py_None)
static inline void Py_INCREF(PyObject *o) { if (!IS_CONST(o)) o->ob_refcnt++; }
static inline void Py_DECREF(PyObject *o) { if (!IS_CONST(o)) { o->ob_refcnt--; if (o->ob_refcnt == 0) _Py_Dealloc(o); } }
#define Py_XINCREF(o) do { if ((o) != NULL) Py_INCREF(o); } while (0)
#define Py_XDECREF(o) do { if ((o) != NULL) Py_DECREF(o); } while (0)
#define Py_CLEAR(o) do { PyObject *t_ = (PyObject *)(o); if (t_ != NULL) { (o) = NULL; Py_DECREF(t_); } } while (0)
static inline PyObject *Py_NewRef(PyObject *o) { Py_INCREF(o); return o; }
static inline PyObject *Py_XNewRef(PyObject *o) { if (o) Py_INCREF(o); return o; }
#define Py_RETURN_TRUE return Py_True
#define Py_RETURN_FALSE return Py_False
#define Py_RETURN_NONE return Py_None
#define Py_UNUSED(n) n
#define Py_SAFE_DOWNCAST(v, a, b) ((b)(v))
#define PyBytes_Check(o) 1
#define Py_LIKELY(x) (x)
#define Py_UNLIKELY(x) (x)
static inline Py_ssize_t PyUnicode_GET_LENGTH(PyObject *o) { return o->length; }
static inline int PyUnicode_READY(PyObject *o) { (void)o; return 0; }
#define PyUnicode_WCHAR_KIND 0
#define PyUnicode_1BYTE_KIND 1
#define PyUnicode_2BYTE_KIND 2
#define PyUnicode_4BYTE_KIND 4
#define PyUnicode_Check(o) 1
#define PyUnicode_KIND(o) 4
#define PyUnicode_DATA(o) ((void *)(o)->cp)
#define PyUnicode_1BYTE_DATA(o) ((Py_UCS1 *)(o)->cp)
#define PyUnicode_2BYTE_DATA(o) ((Py_UCS2 *)(o)->cp)
#define PyUnicode_4BYTE_DATA(o) ((o)->cp)
#define PyUnicode_READ(k, d, i) ((k) == 1 ? ((const Py_UCS1 *)(d))[i] : (k) == 2 ? ((const Py_UCS2 *)(d))[i] : ((const Py_UCS4 *)(d))[i])
Py_UCS4 PyUnicode_READ_CHAR(PyObject *o, Py_ssize_t i);
#define PyUnicode_MAX_CHAR_VALUE(o) 0x10FFFF
PyObject *PyUnicode_Decode(const char *s, Py_ssize_t n, const char *enc, const char *errors);
PyObject *PyUnicode_DecodeUTF8(const char *s, Py_ssize_t n, const char *errors);
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n);
PyObject *PyUnicode_DecodeLatin1(const char *s, Py_ssize_t n, const char *errors);
PyObject *PyUnicode_DecodeASCII(const char *s, Py_ssize_t n, const char *errors);
PyObject *PyUnicode_DecodeUTF16(const char *s, Py_ssize_t n, const char *errors, int *order);
PyObject *PyUnicode_DecodeUTF32(const char *s, Py_ssize_t n, const char *errors, int *order);
Py_ssize_t PyUnicode_GetLength(PyObject *o);
Py_UCS4 PyUnicode_ReadChar(PyObject *o, Py_ssize_t i);
void PyErr_Clear(void);
PyObject *PyErr_Occurred(void);
void PyErr_SetString(PyObject *e, const char *m);
int PyErr_ExceptionMatches(PyObject *e);
PyObject *PyBool_FromLong(long v);
int _PyArg_ParseTuple_SizeT(PyObject *args, const char *format, ...);
int PyArg_ParseTuple_old(PyObject *args, const char *format, ...);
#ifdef PY_SSIZE_T_CLEAN
#define PyArg_ParseTuple _PyArg_ParseTuple_SizeT
#else
#define PyArg_ParseTuple PyArg_ParseTuple_old
#endif
void PyBuffer_Release(Py_buffer *b);
int PyObject_GetBuffer(PyObject *o, Py_buffer *b, int flags);
#define PyBUF_SIMPLE 0
/* module boilerplate, not run */
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef int (*visitproc)(PyObject *, void *);
typedef int (*traverseproc)(PyObject *, visitproc, void *);
typedef int (*inquiry)(PyObject *);
typedef void (*freefunc)(void *);
typedef struct { int x; } PyModuleDef_Base;
typedef struct PyModuleDef_Slot { int slot; void *value; } PyModuleDef_Slot;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; traverseproc m_traverse; inquiry m_clear; freefunc m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define METH_VARARGS 1
#define METH_O 8
#define Py_VISIT(o) do { if (o) { int v_ = visit((PyObject *)(o), arg); if (v_) return v_; } } while (0)
#define PyMODINIT_FUNC PyObject *
void *PyModule_GetState(PyObject *m);
PyObject *PyModule_Create(PyModuleDef *d);
PyObject *PyErr_NewException(const char *n, PyObject *b, PyObject *d);
#endif
