// @bounds Vec2..Vec7, dVec of 0..4 entries, Mat33, MatSym3, dMat of 1..3 x 1..3, elements of 2, 3, 4 and 8 nodes: every integer index from -3 to 2^33 (one symbolic integer per argument), every value; typed element access on a storage of every mix of two elements out of four types, every element number in it
// @outside the Python half of the module (printing, from_list/to_list, thisown) and the CPython interpreter itself, which is replaced by a minimal object model (tuples, integers, floats, SWIG pointers, error indicator); SWIG's own run-time type table and its container wrappers
// @assume the wrapper generated by SWIG from python/nla3d.swg is what gets built; the module is not initialized, so that SWIG does not check pointer types
// @swig yes
// @budget 300
#include "symx.h"
#include <string.h>
#include "nla3d_wrapper.cxx"
#include "testel.h"
// ---- a minimal CPython
namespace fake {
struct I { PyObject_HEAD long v; bool big; }; struct F { PyObject_HEAD double v; };
static PyObject* err = nullptr; static int nset = 0;
struct T { PyObject_VAR_HEAD PyObject* it[4]; };
}
extern "C" {
PyTypeObject PyTuple_Type, PyLong_Type, PyFloat_Type, PyBaseObject_Type, PyUnicode_Type, PyType_Type; static PyTypeObject Swig_T, Exc_T;
PyObject _Py_NoneStruct; static PyObject E_[6];
PyObject *PyExc_IndexError = &E_[0], *PyExc_TypeError = &E_[1], *PyExc_OverflowError = &E_[2], *PyExc_ValueError = &E_[3], *PyExc_SystemError = &E_[4], *PyExc_RuntimeError = &E_[5], *PyExc_MemoryError = &E_[5], *PyExc_AttributeError = &E_[5], *PyExc_IOError = &E_[5], *PyExc_ZeroDivisionError = &E_[5], *PyExc_SyntaxError = &E_[5], *PyExc_StopIteration = &E_[5], *PyExc_NotImplementedError = &E_[5];
int PyType_IsSubtype(PyTypeObject* a, PyTypeObject* b) { return a == b; }
int PyType_Ready(PyTypeObject*) { return 0; }
void PyErr_SetString(PyObject* t, const char*) { fake::err = t; fake::nset++; }
PyObject* PyErr_Format(PyObject* t, const char*, ...) { fake::err = t; fake::nset++; return nullptr; }
PyObject* PyErr_Occurred(void) { return fake::err; }
void PyErr_Clear(void) { fake::err = nullptr; }
unsigned long PyLong_AsUnsignedLong(PyObject* o) { fake::I* i = (fake::I*)o; if (i->v < 0) { PyErr_SetString(PyExc_OverflowError, ""); return (unsigned long)-1; } return i->v; }
long PyLong_AsLong(PyObject* o) { return ((fake::I*)o)->v; }
double PyLong_AsDouble(PyObject* o) { return ((fake::I*)o)->v; }
double PyFloat_AsDouble(PyObject* o) { return ((fake::F*)o)->v; }
PyObject* PyFloat_FromDouble(double v) { fake::F* f = new fake::F; f->ob_base.ob_refcnt = 1 << 20; f->ob_base.ob_type = &PyFloat_Type; f->v = v; return (PyObject*)f; }
PyObject* PyLong_FromLong(long v) { fake::I* f = new fake::I; f->ob_base.ob_refcnt = 1 << 20; f->ob_base.ob_type = &PyLong_Type; f->v = v; return (PyObject*)f; }
PyObject* PyLong_FromUnsignedLong(unsigned long v) { return PyLong_FromLong(v); }
PyObject* PyLong_FromSize_t(size_t v) { return PyLong_FromLong(v); }
PyObject* _PyObject_New(PyTypeObject* t) { SwigPyObject* s = (SwigPyObject*)malloc(sizeof(SwigPyObject)); memset(s, 0, sizeof *s); ((PyObject*)s)->ob_refcnt = 1 << 20; ((PyObject*)s)->ob_type = t; return (PyObject*)s; }
void _Py_Dealloc(PyObject*) {}
}
using namespace tst;
static void init() { PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS; Swig_T.tp_name = "SwigPyObject"; Exc_T.tp_name = "x"; for (auto p : {&PyTuple_Type, &PyLong_Type, &PyFloat_Type}) { p->tp_name = "t"; ((PyObject*)p)->ob_refcnt = 1 << 20; } for (auto& e : E_) e.ob_refcnt = 1 << 20, e.ob_type = &Exc_T; _Py_NoneStruct.ob_refcnt = 1 << 20; _Py_NoneStruct.ob_type = &Exc_T; fake::err = nullptr; fake::nset = 0; }
struct Obj { SwigPyObject o; Obj(void* p) { memset(&o, 0, sizeof o); ((PyObject*)&o)->ob_refcnt = 1 << 20; ((PyObject*)&o)->ob_type = &Swig_T; o.ptr = p; } };
static PyObject* call(PyObject* (*f)(PyObject*, PyObject*), void* self, std::initializer_list<PyObject*> a) { Obj s(self); fake::T t; memset(&t, 0, sizeof t); PyVarObject* v = (PyVarObject*)&t; ((PyObject*)v)->ob_refcnt = 1 << 20; ((PyObject*)v)->ob_type = &PyTuple_Type; int n = 0; ((PyTupleObject*)&t)->ob_item[n++] = (PyObject*)&s; for (auto x : a) ((PyTupleObject*)&t)->ob_item[n++] = x; v->ob_size = n; fake::err = nullptr; fake::nset = 0; return f(nullptr, n == 1 ? (PyObject*)&s : (PyObject*)&t); }
static PyObject* in(long v) { return PyLong_FromLong(v); }
static PyObject* fl(double v) { return PyFloat_FromDouble(v); }
static long index(const char* n) { return (long)__sym_u64(n, 0, (1ul << 33) + 3, 64) - 3; }
static double D(const char* n) { return symD(n, -9, 9); }
// an index error (or overflow of the C type), nothing returned
static void refused(PyObject* r) { CK(r == nullptr, "nothing is returned for an index out of range"); CK(fake::err == PyExc_IndexError || fake::err == PyExc_OverflowError, "an index out of range raises IndexError"); }
// an iteration over the object ends with IndexError exactly at its length
static double num(PyObject* r) { CK(r != nullptr && fake::err == nullptr && Py_TYPE(r) == &PyFloat_Type, "a number is returned"); return r && Py_TYPE(r) == &PyFloat_Type ? ((fake::F*)r)->v : 0; }
template<class V> static void vec(V& v, long n, PyObject* (*get)(PyObject*, PyObject*), PyObject* (*set)(PyObject*, PyObject*)) { double w[8]; for (long i = 0; i < n; i++) v[i] = w[i] = D("v"); long i = index("i"); PyObject* r = call(get, &v, {in(i)}); if (i >= 0 && i < n) { i = (long)__sym_concretize(i); EQ(num(r), w[i], L2("v[i]", i)); } else refused(r); r = call(get, &v, {in(n)}); CK(!r && fake::err == PyExc_IndexError, "iteration ends behind the last entry"); long j = index("j"); double x = D("x"); r = call(set, &v, {in(j), fl(x)}); if (j >= 0 && j < n) { j = (long)__sym_concretize(j); CK(r && !fake::err, "v[j] = x is accepted"); w[j] = x; } else refused(r); for (long k = 0; k < n; k++) EQ(v[k], w[k], L2("entries after v[j] = x", k)); r = call(set, &v, {in(0), in(3)}); if (n) { CK(r && !fake::err, "an integer is accepted as value"); EQ(v[0], 3, "integer value"); } REACH("end"); }
#define VEC(N) HARNESS(vec##N) { init(); Vec<N> v; vec(v, N, _wrap_Vec##N##___getitem__, _wrap_Vec##N##___setitem__); }
VEC(2) VEC(3) VEC(4) VEC(5) VEC(6) VEC(7)
HARNESS(dvec) { init(); uint32 n = pickU("n", 0, 4); if (n && pickB("view")) { dVec big(n + 2); dVec v(big, 1, n); big.zero(); big[0] = 5; big[n + 1] = 6; vec(v, n, _wrap_dVec___getitem__, _wrap_dVec___setitem__); CK(big[0] == 5 && big[n + 1] == 6, "nothing beside the view is touched"); } else { dVec v(n); vec(v, n, _wrap_dVec___getitem__, _wrap_dVec___setitem__); } }
template<class M, class A> static void mat(M& m, A at, long r, long c, bool sym, PyObject* (*get)(PyObject*, PyObject*), PyObject* (*set)(PyObject*, PyObject*)) { double w[3][3]; for (long i = 0; i < r; i++) for (long j = sym ? i : 0; j < c; j++) { w[i][j] = at(i, j) = D("m"); if (sym) w[j][i] = w[i][j]; } long i = index("i"), j = index("j"); PyObject* o = call(get, &m, {in(i), in(j)}); bool ok = i >= 0 && i < r && j >= 0 && j < c; if (ok) { i = (long)__sym_concretize(i); j = (long)__sym_concretize(j); EQ(num(o), w[i][j], L2("m[i,j]", i, j)); } else refused(o); double x = D("x"); o = call(set, &m, {in(i), in(j), fl(x)}); if (ok) { CK(o && !fake::err, "m[i,j] = x is accepted"); w[i][j] = x; if (sym) w[j][i] = x; } else refused(o); for (long a = 0; a < r; a++) for (long b = 0; b < c; b++) EQ(at(a, b), w[a][b], L2("entries after m[i,j] = x", a, b)); REACH("end"); }
HARNESS(mat33) { init(); Mat<3, 3> m; mat(m, [&m](long i, long j) -> double& { return m[i][j]; }, 3, 3, false, _wrap_Mat33__getitem, _wrap_Mat33__setitem); PyObject* r = call(_wrap_Mat33_copy, &m, {}); CK(r != nullptr, "copy"); if (r) { Mat<3, 3>* c = (Mat<3, 3>*)((SwigPyObject*)r)->ptr; CK(c != &m && ((SwigPyObject*)r)->own, "a copy of its own, owned by Python"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { EQ((*c)[i][j], m[i][j], L2("copied entry", i, j)); } double old = m[1][2]; (*c)[1][2] = 4; EQ(m[1][2], old, "the copy is independent"); } }
HARNESS(matsym3) { init(); MatSym<3> m; mat(m, [&m](long i, long j) -> double& { return m.comp(i, j); }, 3, 3, true, _wrap_MatSym3__getitem, _wrap_MatSym3__setitem); }
HARNESS(dmat) { init(); long r = pickU("rows", 1, 3), c = pickU("cols", 1, 3); dMat m(r, c); mat(m, [&m](long i, long j) -> double& { return m[i][j]; }, r, c, false, _wrap_dMat__getitem, _wrap_dMat__setitem); }
template<class E> static void element() { init(); E e; long n = e.getNNodes(); uint32 w[8]; for (long i = 0; i < n; i++) e.getNodeNumber(i) = w[i] = symU("node", 1, 1u << 31); long i = index("i"); PyObject* r = call(_wrap_Element_getNodeNumber, (Element*)&e, {in(i)}); if (i >= 0 && i < n) { i = (long)__sym_concretize(i); CK(r && Py_TYPE(r) == &PyLong_Type && ((fake::I*)r)->v == (long)w[i], "node number"); } else refused(r); long j = index("j"), x = index("x"); r = call(_wrap_Element_setNodeNumber, (Element*)&e, {in(j), in(x)}); if (j >= 0 && j < n && x >= 0 && x < (1l << 32)) { j = (long)__sym_concretize(j); CK(r && !fake::err, "accepted"); w[j] = x; } else refused(r); for (long k = 0; k < n; k++) CK(e.getNodeNumber(k) == w[k], "node numbers afterwards"); REACH("end"); }
HARNESS(nodes_truss) { element<ElementTRUSS3>(); }
HARNESS(nodes_tetra) { element<ElementTETRA0>(); }
HARNESS(nodes_quad) { element<ElementQUADTH>(); }
HARNESS(typed_element) { init(); FEStorage s; int t[3]; for (int i = 0; i < 2; i++) { t[i + 1] = pickU("type", 0, 3); s.addElement(t[i + 1] == 0 ? (Element*)new ElementTETRA0 : t[i + 1] == 1 ? (Element*)new ElementTRUSS3 : t[i + 1] == 2 ? (Element*)new ElementQUADTH : (Element*)new SurfaceLINETH); } int en = pickU("en", 1, 2); static PyObject* (*const get[4])(PyObject*, PyObject*) = {_wrap_FEStorage_getElementTETRA0, _wrap_FEStorage_getElementTRUSS3, _wrap_FEStorage_getElementQUADTH, _wrap_FEStorage_getElementSurfaceLINETH}; for (int k = 0; k < 4; k++) { PyObject* r = call(get[k], &s, {in(en)}); if (t[en] == k) { CK(r && !fake::err, "element of that type"); if (r) { Element* e = &s.getElement(en); void* want = k == 0 ? (void*)dynamic_cast<ElementTETRA0*>(e) : k == 1 ? (void*)dynamic_cast<ElementTRUSS3*>(e) : k == 2 ? (void*)dynamic_cast<ElementQUADTH*>(e) : (void*)dynamic_cast<SurfaceLINETH*>(e); CK(((SwigPyObject*)r)->ptr == want && !((SwigPyObject*)r)->own, "the stored element, still owned by the storage"); } } else CK(!r && fake::err == PyExc_IndexError, "an element of another type raises IndexError"); } REACH("end"); }
