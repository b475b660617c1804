#ifndef LATTICE_HPP
#define LATTICE_HPP
#include "mathspace.hpp"
// the lattice: all exponents x mantissas x signs, specials, neighbourhoods of the constants
template <class T> std::vector<T> args() {
  const int MB = sizeof(T) == 4 ? 23 : 52, EM = sizeof(T) == 4 ? 255 : 2047, TOP = sizeof(T) == 4 ? 31 : 63, BIAS = EM / 2;
  std::vector<T> v;
  for (int e = 0; e <= EM; e++) {
    const int n = std::abs(e - BIAS) <= 14 ? 96 : 4;
    for (int k = 0; k < n; k++) {
      uint64_t m = k == 0 ? 0 : k == 1 ? (1ull << MB) - 1 : (k * 0x9e3779b97f4a7c15ull) >> (64 - MB);
      if (e == EM && m) m |= 1ull << (MB - 1);  // quiet NaNs only
      for (uint64_t s = 0; s < 2; s++) v.push_back(fromBits<T>(s << TOP | (uint64_t)e << MB | m));
    }
  }
  for (double c : literals())
    for (int j = -2; j <= 2; j++) {
      T f = (T)c;
      if (!std::isfinite(f) || f == 0) continue;
      f = fromBits<T>(ub(f) + j);
      if (f == f) { v.push_back(f); v.push_back(-f); }
    }
  for (int k = 1; k < 6370; k++) { T c = (T)(k * 0.7853981633974483); v.push_back(c); v.push_back(fromBits<T>(ub(c) + 1)); v.push_back(-fromBits<T>(ub(c) - 1)); }
  return v;
}
#endif
