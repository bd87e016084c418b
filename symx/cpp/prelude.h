// Put in front of every translation unit of /repo/cpp: `double` becomes a symbolic real.
//
// A SymReal is one PyObject pointer (the size of a double, and the layout of a slot of a
// numpy object array).  Arithmetic goes through the Python number protocol, so the values
// are the solver terms of symx.engine; a comparison asks the engine for the truth value,
// which decides (or forks on) it with the solver.
#ifndef SYMX_PRELUDE_H
#define SYMX_PRELUDE_H
#include <bits/stdc++.h>
#include <cassert>

#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/multi_array.hpp>
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <pybind11/operators.h>
#include <pybind11/functional.h>

namespace symx {
  namespace py = pybind11;

  // Ends the path: what the code under test does by exit(), assert() and the like.
  [[noreturn]] inline void stop(PyObject* type, const std::string& what)
  {
    PyErr_SetString(type, what.c_str());
    throw py::error_already_set();
  }

  // For faults found where an exception cannot be thrown (noexcept functions of the
  // standard library): the Python side records the violation and ends the process.
  [[noreturn]] inline void fault(const std::string& what)
  {
    try { py::module_::import("symx.cppload").attr("fault")(what); } catch (...) {}
    _exit(99);
  }
  inline void exit_(int code) { stop(PyExc_SystemExit, "exit(" + std::to_string(code) + ") in C++"); }
}
[[noreturn]] inline void symx_exit(int code) { symx::exit_(code); __builtin_unreachable(); }
[[noreturn]] inline void symx_abort() { symx::stop(PyExc_SystemExit, "abort() in C++"); }
namespace std { using ::symx_exit; using ::symx_abort; }
namespace boost {
  inline void assertion_failed(char const* e, char const*, char const*, long) { symx::stop(PyExc_IndexError, std::string("C++: ") + e); }
  inline void assertion_failed_msg(char const* e, char const* m, char const*, char const*, long) { symx::stop(PyExc_IndexError, std::string("C++: ") + e); }
}

// While the module is imported: numbers made now are the initial values of variables, which
// are put back between paths (cppload.restore), so they are never given up.
inline bool symx_loading = true;

class SymReal
{
public:
  PyObject* p;

  SymReal() : p(nullptr) {}
  SymReal(const SymReal& o) : p(o.p) { Py_XINCREF(p); }
  SymReal(SymReal&& o) noexcept : p(o.p) { o.p = nullptr; }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  SymReal(T v) : p(PyFloat_FromDouble((double) v)) { if (symx_loading) Py_XINCREF(p); }
  ~SymReal() { if (p && Py_IsInitialized()) { Py_DECREF(p); } }
  SymReal& operator=(const SymReal& o) { PyObject* q = o.p; Py_XINCREF(q); PyObject* old = p; p = q; Py_XDECREF(old); return *this; }
  SymReal& operator=(SymReal&& o) noexcept { std::swap(p, o.p); return *this; }

  static SymReal steal(PyObject* q) { if (!q) throw pybind11::error_already_set(); SymReal r; r.p = q; return r; }
  // borrowed reference; a value never written counts as zero
  PyObject* get() const { static PyObject* zero = PyFloat_FromDouble(0.0); return p ? p : zero; }

  SymReal operator-() const { return steal(PyNumber_Negative(get())); }
  SymReal operator+() const { return *this; }
  explicit operator bool() const { return truth(PyObject_RichCompare(get(), SymReal(0.0).get(), Py_NE)); }
  template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
  explicit operator T() const
  {
    PyObject* i = PyNumber_Long(get());
    if (!i) throw pybind11::error_already_set();
    long v = PyLong_AsLong(i);
    Py_DECREF(i);
    if (v == -1 && PyErr_Occurred()) throw pybind11::error_already_set();
    return (T) v;
  }
  static bool truth(PyObject* r)
  {
    if (!r) throw pybind11::error_already_set();
    int t = PyObject_IsTrue(r);
    Py_DECREF(r);
    if (t < 0) throw pybind11::error_already_set();
    return t != 0;
  }
};

#define SYMX_BIN(OP, FN) \
  inline SymReal operator OP(const SymReal& a, const SymReal& b) { return SymReal::steal(FN(a.get(), b.get())); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline SymReal operator OP(const SymReal& a, T b) { return a OP SymReal(b); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline SymReal operator OP(T a, const SymReal& b) { return SymReal(a) OP b; } \
  inline SymReal& operator OP##=(SymReal& a, const SymReal& b) { a = a OP b; return a; } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline SymReal& operator OP##=(SymReal& a, T b) { a = a OP SymReal(b); return a; }
SYMX_BIN(+, PyNumber_Add)
SYMX_BIN(-, PyNumber_Subtract)
SYMX_BIN(*, PyNumber_Multiply)
SYMX_BIN(/, PyNumber_TrueDivide)
#undef SYMX_BIN
#define SYMX_CMP(OP, CODE) \
  inline bool operator OP(const SymReal& a, const SymReal& b) { return SymReal::truth(PyObject_RichCompare(a.get(), b.get(), CODE)); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator OP(const SymReal& a, T b) { return a OP SymReal(b); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator OP(T a, const SymReal& b) { return SymReal(a) OP b; }
SYMX_CMP(<, Py_LT)
SYMX_CMP(<=, Py_LE)
SYMX_CMP(>, Py_GT)
SYMX_CMP(>=, Py_GE)
SYMX_CMP(==, Py_EQ)
SYMX_CMP(!=, Py_NE)
#undef SYMX_CMP
inline SymReal& operator++(SymReal& a) { a += 1; return a; }
inline SymReal& operator--(SymReal& a) { a -= 1; return a; }
inline SymReal operator++(SymReal& a, int) { SymReal b = a; a += 1; return b; }
inline SymReal operator--(SymReal& a, int) { SymReal b = a; a -= 1; return b; }
inline std::ostream& operator<<(std::ostream& os, const SymReal&) { return os << "<real>"; }

// math functions: the same substitutes as for `math` in the Python code
#define SYMX_FN1(NAME) \
  inline SymReal NAME(const SymReal& a) { \
    static PyObject* f = pybind11::object(pybind11::module_::import("symx.cppload").attr("math_fn")(#NAME)).release().ptr(); \
    return SymReal::steal(PyObject_CallFunctionObjArgs(f, a.get(), nullptr)); }
#define SYMX_FN2(NAME) \
  inline SymReal NAME(const SymReal& a, const SymReal& b) { \
    static PyObject* f = pybind11::object(pybind11::module_::import("symx.cppload").attr("math_fn")(#NAME)).release().ptr(); \
    return SymReal::steal(PyObject_CallFunctionObjArgs(f, a.get(), b.get(), nullptr)); }
#define SYMX_ALL1(X) X(sqrt) X(exp) X(log) X(sin) X(cos) X(tan) X(floor) X(ceil) X(fabs) X(acos) X(asin) X(atan) X(cbrt)
#define SYMX_ALL2(X) X(pow) X(atan2) X(hypot) X(fmod)
SYMX_ALL1(SYMX_FN1)
SYMX_ALL2(SYMX_FN2)
inline SymReal abs(const SymReal& a) { return fabs(a); }
// memory copies must keep the reference counts
inline void* symx_memcpy(SymReal* d, const SymReal* s, size_t n)
{ n /= sizeof(SymReal); if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
inline void* symx_memset(SymReal* d, int, size_t n) { n /= sizeof(SymReal); for (size_t i = 0; i < n; ++i) d[i] = SymReal(); return d; }
namespace dnt { enum class Ptype; template <Ptype PT> class Pstruct; }
template <dnt::Ptype PT> void* symx_memcpy(dnt::Pstruct<PT>* d, const dnt::Pstruct<PT>* s, size_t n)
{ n /= sizeof(dnt::Pstruct<PT>); if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
template <class T, class U> void* symx_memcpy(T* d, const U* s, size_t n) { return std::memmove((void*) d, (const void*) s, n); }
template <class T> void* symx_memset(T* d, int c, size_t n) { return std::memset((void*) d, c, n); }
namespace std { using ::symx_memcpy; using ::symx_memset; }
inline SymReal fmax(const SymReal& a, const SymReal& b) { return a < b ? b : a; }
inline SymReal fmin(const SymReal& a, const SymReal& b) { return b < a ? b : a; }
inline bool signbit(const SymReal& a) { return a < 0.0; }
inline SymReal copysign(const SymReal& a, const SymReal& b) { return b < 0.0 ? -fabs(a) : fabs(a); }
inline bool isnan(const SymReal&) { return false; }
inline bool isinf(const SymReal&) { return false; }
inline bool isfinite(const SymReal&) { return true; }
namespace std {
#define SYMX_USE(NAME) using ::NAME;
  SYMX_ALL1(SYMX_USE) SYMX_ALL2(SYMX_USE)
  using ::abs; using ::fmax; using ::fmin; using ::isnan; using ::isinf; using ::isfinite; using ::signbit; using ::copysign;
  inline string to_string(const SymReal&) { return "<real>"; }
  // by value, so that mixed arguments (a literal is a native double) convert
  inline SymReal max(const SymReal& a, const SymReal& b) { return a < b ? b : a; }
  inline SymReal min(const SymReal& a, const SymReal& b) { return b < a ? b : a; }
  inline SymReal clamp(const SymReal& v, const SymReal& lo, const SymReal& hi) { return v < lo ? lo : hi < v ? hi : v; }
  inline SymReal fma(const SymReal& a, const SymReal& b, const SymReal& c) { return a * b + c; }
  inline SymReal hypot(const SymReal& a, const SymReal& b, const SymReal& c) { return ::sqrt(a * a + b * b + c * c); }
  inline SymReal trunc(const SymReal& a) { return a < 0.0 ? -::floor(-a) : ::floor(a); }
  inline SymReal round(const SymReal& a) { return a < 0.0 ? -::floor(-a + 0.5) : ::floor(a + 0.5); }
  inline SymReal remainder(const SymReal& a, const SymReal& b) { return a - b * round(a / b); }
  template <class It, class = typename enable_if<is_same<typename iterator_traits<It>::value_type, SymReal>::value>::type>
  SymReal accumulate(It i, It e, double s0) { SymReal s = s0; for (; i != e; ++i) s += *i; return s; }
  template <class It, class = typename enable_if<is_same<typename iterator_traits<It>::value_type, SymReal>::value>::type>
  SymReal accumulate(It i, It e, int s0) { SymReal s = s0; for (; i != e; ++i) s += *i; return s; }
  template <class It, class Jt, class = typename enable_if<is_same<typename iterator_traits<It>::value_type, SymReal>::value>::type>
  SymReal inner_product(It i, It e, Jt j, double s0) { SymReal s = s0; for (; i != e; ++i, ++j) s += *i * *j; return s; }
  template <class It, class Jt, class = typename enable_if<is_same<typename iterator_traits<It>::value_type, SymReal>::value>::type>
  SymReal transform_reduce(It i, It e, Jt j, double s0) { return inner_product(i, e, j, s0); }
  template <> struct numeric_limits<SymReal> : numeric_limits<double> {
    static SymReal epsilon() { return numeric_limits<double>::epsilon(); }
    static SymReal max() { return numeric_limits<double>::max(); }
    static SymReal min() { return numeric_limits<double>::min(); }
    static SymReal lowest() { return numeric_limits<double>::lowest(); }
    static SymReal infinity() { return numeric_limits<double>::max(); }
  };
}

namespace pybind11 { namespace detail {
  template <> struct type_caster<SymReal> {
    PYBIND11_TYPE_CASTER(SymReal, const_name("float"));
    bool load(handle src, bool)
    {
      if (!src) return false;
      object v = module_::import("symx.cppload").attr("number")(src);   // None: not a number
      if (v.is_none()) return false;
      value = SymReal::steal(v.release().ptr());
      return true;
    }
    static handle cast(const SymReal& s, return_value_policy, handle) { PyObject* q = s.get(); Py_INCREF(q); return q; }
  };
  template <> struct npy_format_descriptor<SymReal> {
    static constexpr auto name = const_name("float");
    static pybind11::dtype dtype() { return reinterpret_borrow<pybind11::dtype>(module_::import("symx.npshim").attr("OF")); }
    static std::string format() { return "O"; }
  };
} 
  template <> struct format_descriptor<SymReal> { static std::string format() { return "O"; } };
}

// The particle record is laid out like the records of a numpy array (pybind11 asks).
namespace dnt { enum class Ptype; template <Ptype PT> class Pstruct; }
namespace std { template <dnt::Ptype PT> struct is_trivially_copyable<dnt::Pstruct<PT>> : true_type {}; }

#include "dolfin_stub.h"

#define SYMX_PRELUDE_DONE
#include <cassert>
#define memcpy symx_memcpy
#define memmove symx_memcpy
#define memset symx_memset
#define exit symx_exit
#define abort symx_abort
#define double SymReal
#endif
