/* A small model of the part of the CPython API that clib/xmlstring.c can use, over the real headers.
   Strings are real compact unicode objects; objects that are released are freed; the pending exception is a flag. */
#ifndef PYSTUB_H
#define PYSTUB_H
#include <Python.h>

#ifdef __CPROVER
#define CHECK(c, what) __CPROVER_assert(c, what)
#else
#include <stdio.h>
#define CHECK(c, what) ((c) ? (void)0 : (printf("FAILED: %s\n", what), fflush(stdout), exit(3)))
#endif

static unsigned char *IN;      /* the argument */
static Py_ssize_t IN_LEN;
static int ARGS_BAD;
static int pending;            /* an exception is set */
static int live_objects;       /* strings not released yet */
static int encodes;

PyObject true_object, false_object, none_object, exc_object;

/* ---------------------------------------------------------- decoders: code points of a byte string, or -1 */
static int dec_utf8(const unsigned char *s, Py_ssize_t n, Py_UCS4 *out, int lax)
{
  Py_ssize_t i = 0;
  int k = 0;
  while (i < n) {
    unsigned char c = s[i];
    int more, j, bad = 0;
    Py_UCS4 v, least;
    if (c < 0x80) { out[k++] = c; i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) { more = 1; v = c & 0x1F; least = 0x80; }
    else if (c >= 0xE0 && c <= 0xEF) { more = 2; v = c & 0x0F; least = 0x800; }
    else if (c >= 0xF0 && c <= 0xF4) { more = 3; v = c & 0x07; least = 0x10000; }
    else { more = 0; v = 0; least = 1; }
    if (more == 0 || i + more >= n) bad = 1;
    for (j = 1; !bad && j <= more; j++) {
      if ((s[i + j] & 0xC0) != 0x80) bad = 1;
      else v = (v << 6) | (s[i + j] & 0x3F);
    }
    if (!bad && (v < least || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF))) bad = 1;
    if (!bad) { out[k++] = v; i += more + 1; }
    else if (lax == 0) return -1;
    else { if (lax == 1) out[k++] = 0xFFFD; i++; }
  }
  return k;
}

static int dec_utf16(const unsigned char *s, Py_ssize_t n, Py_UCS4 *out, int be, int lax)
{
  Py_ssize_t i = 0;
  int k = 0;
  while (i < n) {
    Py_UCS4 u, w;
    if (i + 1 >= n) { if (lax == 0) return -1; if (lax == 1) out[k++] = 0xFFFD; return k; }
    u = be ? ((Py_UCS4)s[i] << 8 | s[i + 1]) : ((Py_UCS4)s[i + 1] << 8 | s[i]);
    i += 2;
    if (u < 0xD800 || u > 0xDFFF) { out[k++] = u; continue; }
    if (u < 0xDC00 && i + 1 < n) {
      w = be ? ((Py_UCS4)s[i] << 8 | s[i + 1]) : ((Py_UCS4)s[i + 1] << 8 | s[i]);
      if (w >= 0xDC00 && w <= 0xDFFF) { out[k++] = 0x10000 + ((u & 0x3FF) << 10 | (w & 0x3FF)); i += 2; continue; }
    }
    if (lax == 0) return -1;
    if (lax == 1) out[k++] = 0xFFFD;
  }
  return k;
}

static int dec_utf32(const unsigned char *s, Py_ssize_t n, Py_UCS4 *out, int be, int lax)
{
  Py_ssize_t i = 0;
  int k = 0;
  while (i < n) {
    Py_UCS4 u;
    if (i + 3 >= n) { if (lax == 0) return -1; if (lax == 1) out[k++] = 0xFFFD; return k; }
    u = be ? ((Py_UCS4)s[i] << 24 | (Py_UCS4)s[i + 1] << 16 | (Py_UCS4)s[i + 2] << 8 | s[i + 3])
           : ((Py_UCS4)s[i + 3] << 24 | (Py_UCS4)s[i + 2] << 16 | (Py_UCS4)s[i + 1] << 8 | s[i]);
    i += 4;
    if (u <= 0x10FFFF && !(u >= 0xD800 && u <= 0xDFFF)) { out[k++] = u; continue; }
    if (lax == 0) return -1;
    if (lax == 1) out[k++] = 0xFFFD;
  }
  return k;
}

/* byteorder: -1 little, 0 as the BOM says (little without one), 1 big */
static int dec16(const unsigned char *s, Py_ssize_t n, Py_UCS4 *out, int order, int lax)
{
  int skip = 0;
  if (order == 0 && n >= 2) {
    if (s[0] == 0xFE && s[1] == 0xFF) { order = 1; skip = 2; }
    else if (s[0] == 0xFF && s[1] == 0xFE) skip = 2;
  }
  return dec_utf16(s + skip, n - skip, out, order > 0, lax);
}

static int dec32(const unsigned char *s, Py_ssize_t n, Py_UCS4 *out, int order, int lax)
{
  int skip = 0;
  if (order == 0 && n >= 4) {
    if (s[0] == 0 && s[1] == 0 && s[2] == 0xFE && s[3] == 0xFF) { order = 1; skip = 4; }
    else if (s[0] == 0xFF && s[1] == 0xFE && s[2] == 0 && s[3] == 0) skip = 4;
  }
  return dec_utf32(s + skip, n - skip, out, order > 0, lax);
}

/* 8, 16, 32, with 100 added for little and 200 for big end first, 300 for a BOM left out; 1 latin-1, 7 ascii, -2 otherwise */
static int encoding_kind(const char *e)
{
  int v = 0, order = 0;
  if (e == NULL) return 8;
  if ((e[0] | 32) == 'l' && (e[1] | 32) == 'a') return 1;
  if ((e[0] | 32) == 'i' && (e[1] | 32) == 's') return 1;
  if ((e[0] | 32) == 'a' && (e[1] | 32) == 's') return 7;
  if ((e[0] | 32) == 'u' && (e[1] | 32) == 's') return 7;
  if (!((e[0] | 32) == 'u' && (e[1] | 32) == 't' && (e[2] | 32) == 'f')) return -2;
  e += 3;
  if (*e == '-' || *e == '_') e++;
  if (e[0] == '8') { v = 8; e += 1; }
  else if (e[0] == '1' && e[1] == '6') { v = 16; e += 2; }
  else if (e[0] == '3' && e[1] == '2') { v = 32; e += 2; }
  else return -2;
  if (*e == '-' || *e == '_') e++;
  if (*e == 0) return v;
  if ((e[0] | 32) == 'l' && (e[1] | 32) == 'e' && e[2] == 0) order = 100;
  else if ((e[0] | 32) == 'b' && (e[1] | 32) == 'e' && e[2] == 0) order = 200;
  else if ((e[0] | 32) == 's' && (e[1] | 32) == 'i' && v == 8) order = 300;
  else return -2;
  return v + order;
}

/* -2: no such encoding */
static int decode(const unsigned char *s, Py_ssize_t n, const char *enc, Py_UCS4 *out, int lax)
{
  int i, k;
  int e = encoding_kind(enc), order = e >= 200 ? 1 : e >= 100 ? -1 : 0;
  if (e == 308 && n >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF) return dec_utf8(s + 3, n - 3, out, lax);
  if (e == 8 || e == 308) return dec_utf8(s, n, out, lax);
  if (e == 16 || e == 116 || e == 216) return dec16(s, n, out, order, lax);
  if (e == 32 || e == 132 || e == 232) return dec32(s, n, out, order, lax);
  if (e == 1) { for (i = 0; i < n; i++) out[i] = s[i]; return n; }
  if (e == 7) {
    for (i = 0, k = 0; i < n; i++) {
      if (s[i] < 128) out[k++] = s[i];
      else if (lax == 0) return -1;
      else if (lax == 1) out[k++] = 0xFFFD;
    }
    return k;
  }
  return -2;
}

/* ---------------------------------------------------------- strings */
static PyObject *new_string(const Py_UCS4 *cps, int k)
{
  PyObject *o = malloc(sizeof(PyObject));
  int i;
#ifdef __CPROVER
  __CPROVER_assume(o != NULL);
#endif
  o->ob_refcnt = 1;
  o->length = k;
  for (i = 0; i < NMAX + 2; i++) o->cp[i] = i < k ? cps[i] : i == k ? 0 : 0x2A2A2A;
  live_objects++;
  return o;
}

Py_UCS4 PyUnicode_READ_CHAR(PyObject *o, Py_ssize_t i)
{
  CHECK(i >= 0 && i <= o->length, "a character outside the text is read");
  return o->cp[i];
}

void _Py_Dealloc(PyObject *o)
{
  CHECK(o != Py_True && o != Py_False && o != Py_None, "the result is released too often");
  live_objects--;
  free(o);
}

static int laxness(const char *errors)
{
  return errors == NULL || errors[0] == 's' ? 0 : errors[0] == 'i' ? 2 : 1;
}

static PyObject *finish(const Py_UCS4 *cps, int k)
{
  if (k < 0) { pending = 1; return NULL; }
  return new_string(cps, k);
}

PyObject *PyUnicode_Decode(const char *s, Py_ssize_t n, const char *enc, const char *errors)
{
  Py_UCS4 cps[NMAX + 2];
  CHECK(n >= 0, "a negative length is decoded");
  encodes++;
  return finish(cps, decode((const unsigned char *)s, n, enc, cps, laxness(errors)));
}

PyObject *PyUnicode_DecodeUTF8(const char *s, Py_ssize_t n, const char *errors) { return PyUnicode_Decode(s, n, "utf-8", errors); }
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { return PyUnicode_Decode(s, n, "utf-8", NULL); }
PyObject *PyUnicode_DecodeLatin1(const char *s, Py_ssize_t n, const char *errors) { return PyUnicode_Decode(s, n, "latin-1", errors); }
PyObject *PyUnicode_DecodeASCII(const char *s, Py_ssize_t n, const char *errors) { return PyUnicode_Decode(s, n, "ascii", errors); }
PyObject *PyUnicode_DecodeUTF16(const char *s, Py_ssize_t n, const char *errors, int *order)
{
  Py_UCS4 cps[NMAX + 2];
  return finish(cps, dec16((const unsigned char *)s, n, cps, order ? *order : 0, laxness(errors)));
}
PyObject *PyUnicode_DecodeUTF32(const char *s, Py_ssize_t n, const char *errors, int *order)
{
  Py_UCS4 cps[NMAX + 2];
  return finish(cps, dec32((const unsigned char *)s, n, cps, order ? *order : 0, laxness(errors)));
}
Py_ssize_t PyUnicode_GetLength(PyObject *o) { return PyUnicode_GET_LENGTH(o); }
Py_UCS4 PyUnicode_ReadChar(PyObject *o, Py_ssize_t i)
{
  if (i < 0 || i >= PyUnicode_GET_LENGTH(o)) { pending = 1; return (Py_UCS4)-1; }
  return PyUnicode_READ_CHAR(o, i);
}

void PyErr_Clear(void) { pending = 0; }
PyObject *PyErr_Occurred(void) { return pending ? &exc_object : NULL; }
void PyErr_SetString(PyObject *e, const char *m) { (void)e; (void)m; pending = 1; }
int PyErr_ExceptionMatches(PyObject *e) { (void)e; return pending; }
PyObject *PyBool_FromLong(long v) { return v ? Py_True : Py_False; }

/* ---------------------------------------------------------- arguments */
static PyObject *THE_ARGS = &exc_object;
static int buffer_held;

int PyArg_ParseTuple_old(PyObject *args, const char *format, ...) { (void)args; (void)format; pending = 1; return 0; }   /* "#" needs PY_SSIZE_T_CLEAN */
int _PyArg_ParseTuple_SizeT(PyObject *args, const char *format, ...)
{
  va_list ap;
  CHECK(args == THE_ARGS, "other arguments are parsed");
  if (ARGS_BAD) { pending = 1; return 0; }
  va_start(ap, format);
  if (format[1] == '#') {
    char **p = va_arg(ap, char **);
    Py_ssize_t *l = va_arg(ap, Py_ssize_t *);
    *p = (char *)IN;
    *l = IN_LEN;
  } else if (format[1] == '*') {
    Py_buffer *b = va_arg(ap, Py_buffer *);
    b->buf = IN;
    b->len = IN_LEN;
    buffer_held++;
  }
  va_end(ap);
  return 1;
}
void PyBuffer_Release(Py_buffer *b) { (void)b; buffer_held--; }
/* module boilerplate, not run */
void *PyModule_GetState(PyObject *m) { return m; }
PyObject *PyModule_Create(PyModuleDef *d) { (void)d; return NULL; }
PyObject *PyErr_NewException(const char *n, PyObject *b, PyObject *d) { (void)n; (void)b; (void)d; return NULL; }
#endif
