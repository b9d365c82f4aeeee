/* A poisoning data allocator for NumPy (NEP 49): every buffer that NumPy asks
 * for without asking for zeroes is filled with a byte pattern.  A value that
 * reaches a result without having been written is therefore visible in that
 * result, and a run with another pattern gives another result (differential
 * uninitialised-read detection for the numerical arrays of the code under
 * test).  It also bypasses NumPy's cache of small blocks. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>

static int pattern = 0x7f;
static unsigned long long n_filled = 0, bytes_filled = 0;

static void *p_malloc(void *ctx, size_t n) {
    void *p = malloc(n ? n : 1);
    if (p) { memset(p, pattern, n); n_filled++; bytes_filled += n; }
    return p;
}
static void *p_calloc(void *ctx, size_t n, size_t e) { return calloc(n ? n : 1, e ? e : 1); }
static void *p_realloc(void *ctx, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void p_free(void *ctx, void *p, size_t n) {
    free(p);
}
static PyDataMem_Handler handler = {"rfv_poison", 1, {NULL, p_malloc, p_calloc, p_realloc, p_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    if (!PyArg_ParseTuple(args, "i", &pattern)) return NULL;
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *uninstall(PyObject *self, PyObject *args) {
    PyObject *old = PyDataMem_SetHandler(NULL);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *set_pattern(PyObject *self, PyObject *args) {
    if (!PyArg_ParseTuple(args, "i", &pattern)) return NULL;
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *self, PyObject *args) {
    return Py_BuildValue("(KK)", n_filled, bytes_filled);
}
static PyMethodDef m[] = {{"install", install, METH_VARARGS, ""},
                          {"uninstall", uninstall, METH_NOARGS, ""},
                          {"set_pattern", set_pattern, METH_VARARGS, ""},
                          {"stats", stats, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef md = {PyModuleDef_HEAD_INIT, "rfv_poison", "", -1, m};
PyMODINIT_FUNC PyInit_rfv_poison(void) { import_array(); return PyModule_Create(&md); }
