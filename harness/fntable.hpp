// Every array function of the library with the scalar function that defines it.
#ifndef FNTABLE_HPP
#define FNTABLE_HPP
#include "vdtMath.h"
#include "mathspace.hpp"
#include <math.h>

template <class T> struct Entry {
  const char *name;
  void (*v)(uint32_t, T const *, T *);
  void (*v2)(uint32_t, T const *, T const *, T *);
  T (*s)(T);
  T (*s2)(T, T);
  int dom;    // which domain applies (Id), NFN: everything, ATAN2D: pairs
  bool fast;
  T eval(T a, T b) const { return s ? s(a) : s2(a, b); }
  void array(uint32_t n, T const *a, T const *b, T *o) const { if (v) v(n, a, o); else v2(n, a, b, o); }
};
enum { ATAN2D = 100 };
#define NOI __attribute__((noinline))
#define LIBM(M) M(asin, ASIN) M(acos, ACOS) M(atan, ATAN) M(cos, COS) M(exp, EXP) M(log, LOG) M(sin, SIN) M(tan, TAN) M(tanh, TANH)
#define FASTS(M) M(asin, ASIN) M(acos, ACOS) M(atan, ATAN) M(cos, COS) M(exp, EXP) M(log, LOG) M(sin, SIN) M(tan, TAN) M(tanh, TANH) \
  M(isqrt, ISQRT) M(inv, INV) M(approx_isqrt, AISQRT) M(approx_inv, AINV)
namespace tab {
#define L(n, d) static NOI double l_##n(double x) { return ::n(x); } static NOI float l_##n(float x) { return ::n##f(x); }
LIBM(L)
#undef L
#define F(n, d) static NOI double f_##n(double x) { return vdt::fast_##n(x); } static NOI float f_##n(float x) { return vdt::fast_##n##f(x); }
FASTS(F)
#undef F
static NOI double l_atan2(double y, double x) { return ::atan2(y, x); }
static NOI float l_atan2(float y, float x) { return ::atan2f(y, x); }
static NOI double f_atan2(double y, double x) { return vdt::fast_atan2(y, x); }
static NOI float f_atan2(float y, float x) { return vdt::fast_atan2f(y, x); }
template <class T> NOI T isqrt(T x) { return 1 / std::sqrt(x); }
template <class T> NOI T inv(T x) { return 1 / x; }
template <class T> NOI T identity(T x) { return x; }
template <class T> NOI T first(T x, T) { return x; }
}  // namespace tab

template <class T> const std::vector<Entry<T>> &table();
#define TABLE(T, S) \
  template <> inline const std::vector<Entry<T>> &table<T>() { \
    typedef T (*F1)(T); typedef T (*F2)(T, T); (void)(F2)0; \
    static const std::vector<Entry<T>> t = { \
      LIBM(LE_##S) FASTS(FE_##S) \
      {"isqrt", vdt::isqrt##S, nullptr, tab::isqrt<T>, nullptr, ISQRT, false}, \
      {"inv", vdt::inv##S, nullptr, tab::inv<T>, nullptr, INV, false}, \
      {"identity", vdt::identity##S, nullptr, tab::identity<T>, nullptr, NFN, false}, \
      {"identity2D", nullptr, vdt::identity2D##S, nullptr, tab::first<T>, ATAN2D, false}, \
      {"atan2", nullptr, vdt::atan2##S, nullptr, (F2)tab::l_atan2, ATAN2D, false}, \
      {"fast_atan2", nullptr, vdt::fast_atan2##S, nullptr, (F2)tab::f_atan2, ATAN2D, true}, \
    }; \
    return t; \
  }
#define LE_v(n, d) {#n, vdt::n##v, nullptr, (F1)tab::l_##n, nullptr, d, false},
#define LE_fv(n, d) {#n, vdt::n##fv, nullptr, (F1)tab::l_##n, nullptr, d, false},
#define FE_v(n, d) {"fast_" #n, vdt::fast_##n##v, nullptr, (F1)tab::f_##n, nullptr, d, true},
#define FE_fv(n, d) {"fast_" #n, vdt::fast_##n##fv, nullptr, (F1)tab::f_##n, nullptr, d, true},
TABLE(double, v)
TABLE(float, fv)

// Values that select every branch of every function.
template <class T> std::vector<T> specials() {
  const T INF = std::numeric_limits<T>::infinity(), MN = std::numeric_limits<T>::min(), MX = std::numeric_limits<T>::max();
  return {(T)0.0, (T)-0.0, (T)1, (T)-1, (T)0.5, (T)-0.3, (T)0.6, (T)0.64, (T)-0.9, (T)0.2, (T)1e-3, (T)-1e-10, (T)1.3, (T)2.5, (T)-3.7, (T)5.5, (T)7.1,
          (T)-12.25, (T)30, (T)-30, (T)87, (T)89, (T)-95, (T)700, (T)712, (T)-712, (T)4999, (T)-1234.5, (T)1e10, (T)-1e30, MN / 8, -MN, MX, INF, -INF,
          std::numeric_limits<T>::quiet_NaN(), (T)1 + std::numeric_limits<T>::epsilon()};
}

// Is x inside the domain in which no exception may be raised?
template <class T> inline bool inDomain(int dom, T x) {
  const T MINN = std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max();
  const bool f = sizeof(T) == 4;
  if (!std::isfinite(x)) return false;
  switch (dom) {
    case EXP: return x >= (f ? (T)-87.3365 : (T)-708) && x <= (f ? (T)88.376 : (T)708);
    case LOG: return x >= MINN && x <= (f ? MAXN : (T)1e307);
    case SIN: case COS: case SCSIN: case SCCOS: case TAN: return std::fabs(x) <= 5000;
    case ASIN: case ACOS: return std::fabs(x) <= 1;
    case ISQRT: case AISQRT: return x >= MINN;
    case INV: case AINV: return std::fabs(x) >= MINN && std::fabs(x) <= (f ? (T)8.5e37 : (T)4.4e307);
  }
  return true;
}
#endif
