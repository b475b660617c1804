// What the names of the benchmark tables stand for.
#ifndef MEANING_HPP
#define MEANING_HPP
#include "mc.hpp"
#include "vdtMath.h"

namespace diag {
using std::string;

// What a name stands for, from the name alone.
template <class T> struct Fn { T (*f)(T); T (*g)(T, T); T lo, hi; };

// Reference values of the C library, in the precision of the name.
#define REF(n)                                              \
  inline double r_##n(double x) { return ::n(x); }          \
  inline float r_##n(float x) { return ::n##f(x); }
REF(exp) REF(log) REF(sin) REF(cos) REF(tan) REF(tanh) REF(asin) REF(acos) REF(atan)
#define FAST(n)                                             \
  inline double q_##n(double x) { return vdt::fast_##n(x); } \
  inline float q_##n(float x) { return vdt::fast_##n##f(x); }
FAST(exp) FAST(log) FAST(sin) FAST(cos) FAST(tan) FAST(tanh) FAST(asin) FAST(acos) FAST(atan) FAST(isqrt) FAST(inv) FAST(approx_isqrt) FAST(approx_inv)
inline double r_isqrt(double x) { return vdt::isqrt(x); }
inline float r_isqrt(float x) { return vdt::isqrtf(x); }
inline double r_inv(double x) { return vdt::inv(x); }
inline float r_inv(float x) { return vdt::invf(x); }
template <class T> T r_id(T x) { return x; }
inline double r_atan2(double x, double y) { return ::atan2(x, y); }
inline float r_atan2(float x, float y) { return ::atan2f(x, y); }
inline double q_atan2(double x, double y) { return vdt::fast_atan2(x, y); }
inline float q_atan2(float x, float y) { return vdt::fast_atan2f(x, y); }
inline double r_id2(double x, double y) { return vdt::identity2D(x, y); }
inline float r_id2(float x, float y) { return vdt::identity2Df(x, y); }

template <class T> std::map<string, Fn<T>> meaning() {
  typedef T (*F)(T);
  typedef T (*G)(T, T);
  const T inf = std::numeric_limits<T>::infinity(), tiny = std::numeric_limits<T>::min(), e = sizeof(T) == 8 ? T(708) : T(87);
  std::map<string, Fn<T>> m;
#define ONE(name, fn, lo, hi) m[name] = {(F)fn, nullptr, lo, hi};
  ONE("Identity", (r_id<T>), -inf, inf)
  ONE("Exp", r_exp, -e, e) ONE("Log", r_log, tiny, inf) ONE("Sin", r_sin, -inf, inf) ONE("Cos", r_cos, -inf, inf) ONE("Tan", r_tan, -inf, inf) ONE("Tanh", r_tanh, -inf, inf)
  ONE("Asin", r_asin, T(-1), T(1)) ONE("Acos", r_acos, T(-1), T(1)) ONE("Atan", r_atan, -inf, inf) ONE("Isqrt", r_isqrt, tiny, inf) ONE("Inverse", r_inv, -inf, inf)
  ONE("Fast_Exp", q_exp, -e, e) ONE("Fast_Log", q_log, tiny, inf) ONE("Fast_Sin", q_sin, T(-5000), T(5000)) ONE("Fast_Cos", q_cos, T(-5000), T(5000)) ONE("Fast_Tan", q_tan, T(-5000), T(5000))
  ONE("Fast_Tanh", q_tanh, -inf, inf) ONE("Fast_Asin", q_asin, T(-1), T(1)) ONE("Fast_Acos", q_acos, T(-1), T(1)) ONE("Fast_Atan", q_atan, -inf, inf) ONE("Fast_Isqrt", q_isqrt, tiny, inf)
  ONE("Fast_Inv", q_inv, -inf, inf) ONE("Fast_Apr_Isqrt", q_approx_isqrt, tiny, inf) ONE("Fast_Apr_Inv", q_approx_inv, -inf, inf)
  m["Identity2D"] = {nullptr, (G)r_id2, -inf, inf};
  m["Atan2"] = {nullptr, (G)r_atan2, -inf, inf};
  m["Fast_Atan2"] = {nullptr, (G)q_atan2, -inf, inf};
  return m;
}

// base name of an entry of a table of this precision and form, empty when the suffix is wrong
template <class T> string base(const string &name, bool array) {
  const string suffix = string(sizeof(T) == 4 ? "f" : "") + (array ? "v" : "");
  if (name.size() <= suffix.size() || name.substr(name.size() - suffix.size()) != suffix) return "";
  return name.substr(0, name.size() - suffix.size());
}

}  // namespace diag
#endif
