// The accuracy contract of the one-argument functions.
#ifndef CONTRACT_HPP
#define CONTRACT_HPP
#include "mathspace.hpp"
typedef long double LD;

// Contract numbers. first = single, second = double precision.
template <class T> struct C;
template <> struct C<float> {
  static constexpr double expHiMust = 88.7229, expHiMay = 88.376, expLo = -87.3365, expUlp = 2.0;
  static constexpr double logMay = 3.5e38, logUlp = 1.5;
  static constexpr double trigDom = 5000, trigAbs = 1.0e-7, trigUlp = 2.0, tanUlp = 4.0, tanUlpSmall = 4.0, tanDelta = 4.0e-11;
  static constexpr double tanhUlp = 8.0, tanhOne = 9.2;
  static constexpr double asinUlp = 3.5, acosAbs = 4.0e-7, atanUlp = 4.0;
  static constexpr double isqrtRel = 5.5e-6, invRel = 1.1e-5, aisqrtRel = 2.0e-3, ainvRel = 4.0e-3, invHi = 8.5e37;
};
template <> struct C<double> {
  static constexpr double expHiMust = 709.7828, expHiMay = 708.0, expLo = -708.0, expUlp = 2.5;
  static constexpr double logMay = 1.0e307, logUlp = 1.5;
  static constexpr double trigDom = 5000, trigAbs = 3.0e-16, trigUlp = 2.0, tanUlp = 4.0, tanUlpSmall = 27.0, tanDelta = 1.0e-26;
  static constexpr double tanhUlp = 8.0, tanhOne = 20.1;
  static constexpr double asinUlp = 2.5, acosAbs = 8.0e-16, atanUlp = 2.5;
  static constexpr double isqrtRel = 1.0e-15, invRel = 2.0e-15, aisqrtRel = 1.0e-10, ainvRel = 2.0e-10, invHi = 4.4e307;
};

struct J { int ok; double m; };  // ok: 1 pass, 0 fail, 2 outside the contract

// The oracle. g is the observed value, r the reference.
template <class T> J judge(int id, T x, T g, typename U<T>::ref r) {
  typedef typename U<T>::ref R;
  typedef C<T> K;
  const T MINN = std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max(), INF = std::numeric_limits<T>::infinity();
  if (x != x) return {2, 0};
  const R e = std::fabs((R)g - r);
  const double u = std::isfinite(g) && std::isfinite(r) ? (double)(e / ulpOf<T>(r)) : INFINITY;
  const double rel = (double)(e / std::fabs(r));
  switch (id) {
    case EXP:
      if (x > (T)K::expHiMust) return {g == INF, 0};
      if (x > (T)K::expHiMay) return {g == INF || u <= K::expUlp, g == INF ? 0 : u};
      if (x >= (T)K::expLo) return {u <= K::expUlp, u};
      return {g >= 0 && e <= (R)MINN * (sizeof(T) == 8 ? 2 : 1), 0};
    case LOG:
      if (x < 0) return {g != g, 0};
      if (x < MINN) return {2, 0};
      if (x > MAXN) return {g == INF, 0};
      if (x > (T)K::logMay) return {g == INF || u <= K::logUlp, g == INF ? 0 : u};
      return {u <= K::logUlp, u};
    case SIN: case COS: case SCSIN: case SCCOS: {
      if (!(std::fabs(x) <= (T)K::trigDom)) return {2, 0};
      bool ok = e <= (R)K::trigAbs;
      if (std::fabs(x) <= (T)0.785) ok = ok && u <= K::trigUlp;
      return {ok, std::isfinite(g) ? (double)e : INFINITY};
    }
    case TAN: {
      if (!(std::fabs(x) <= (T)K::trigDom)) return {2, 0};
      if (!std::isfinite(g)) return {0, INFINITY};
      // within 1.1e-7 of a zero or pole a larger relative error is accepted
      const double k = std::fabs(r) > 9e6L || std::fabs(r) < 1.1e-7L ? K::tanUlpSmall : K::tanUlp;
      const R tol = (R)k * ulpOf<T>(r) + (1 + r * r) * (R)K::tanDelta;
      return {e <= tol, (double)(e / tol)};
    }
    case TANH:
      if (std::fabs(x) >= (T)K::tanhOne) return {g == (x > 0 ? (T)1 : (T)-1), 0};
      return {u <= K::tanhUlp, u};
    case ASIN:
      if (std::fabs(x) > 1) return {g != g, 0};
      return {u <= K::asinUlp, u};
    case ACOS:
      if (std::fabs(x) > 1) return {g != g, 0};
      return {e <= (R)K::acosAbs, std::isfinite(g) ? (double)e : INFINITY};
    case ATAN:
      return {u <= K::atanUlp, u};
    case ISQRT: case AISQRT:
      if (!(x >= MINN && x <= MAXN)) return {2, 0};
      return {rel <= (id == ISQRT ? K::isqrtRel : K::aisqrtRel), rel};
    case INV: case AINV:
      if (!(std::fabs(x) >= MINN && std::fabs(x) <= (T)K::invHi)) return {2, 0};
      return {rel <= (id == INV ? K::invRel : K::ainvRel), rel};
  }
  return {2, 0};
}

// cheap test: is any claim made about x at all?
template <class T> inline bool claimed(int id, T x) {
  const T MINN = std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max();
  if (x != x) return false;
  switch (id) {
    case SIN: case COS: case TAN: case SCSIN: case SCCOS: return std::fabs(x) <= (T)C<T>::trigDom;
    case LOG: return !(x >= 0 && x < MINN);
    case ISQRT: case AISQRT: return x >= MINN && x <= MAXN;
    case INV: case AINV: return std::fabs(x) >= MINN && std::fabs(x) <= (T)C<T>::invHi;
  }
  return true;
}

// arguments for which no exception may be raised
template <class T> bool fpeDomain(int id, T x) {
  const T MINN = std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max();
  if (!std::isfinite(x)) return false;
  switch (id) {
    case EXP: return x >= (T)C<T>::expLo && x <= (T)C<T>::expHiMay;
    case LOG: return x >= MINN && x <= (T)C<T>::logMay;
    case SIN: case COS: case SCSIN: case SCCOS: case TAN: return std::fabs(x) <= (T)C<T>::trigDom;
    case ASIN: case ACOS: return std::fabs(x) <= 1;
    case TANH: case ATAN: return true;
    case ISQRT: case AISQRT: return x >= MINN && x <= MAXN;
    case INV: case AINV: return std::fabs(x) >= MINN && std::fabs(x) <= (T)C<T>::invHi;
  }
  return false;
}
#endif
