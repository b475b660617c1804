// The argument spaces of the numeric explorers.
#ifndef MATHSPACE_HPP
#define MATHSPACE_HPP
#include "mc.hpp"
using namespace mc;

enum Id { EXP, LOG, SIN, COS, TAN, TANH, ASIN, ACOS, ATAN, ISQRT, INV, AISQRT, AINV, SCSIN, SCCOS, NFN };

// ---------------------------------------------------------------------------
// Double precision state space
struct DSpace {
  struct Grid { int e0, e1, mb; unsigned signs; std::vector<uint64_t> tails; };
  std::vector<Grid> g;
  std::vector<double> pts;
  uint64_t gn(const Grid &q) const { return (uint64_t)q.signs * (q.e1 - q.e0 + 1) * q.tails.size() << q.mb; }
  uint64_t size() const { uint64_t n = pts.size(); for (auto &q : g) n += gn(q); return n; }
  double at(uint64_t i) const {
    if (i < pts.size()) return pts[i];
    i -= pts.size();
    for (auto &q : g) {
      uint64_t n = gn(q);
      if (i >= n) { i -= n; continue; }
      uint64_t m = i & ((1ull << q.mb) - 1);
      i >>= q.mb;
      uint64_t t = q.tails[i % q.tails.size()];
      i /= q.tails.size();
      int ne = q.e1 - q.e0 + 1;
      uint64_t e = (uint64_t)(q.e0 + (int)(i % ne) + 1023);
      i /= ne;
      uint64_t low = 52 - q.mb;
      return fromBits<double>((i << 63) | (e << 52) | (m << low) | (t & ((1ull << low) - 1)));
    }
    return 0;
  }
};

static void window(std::vector<double> &v, double c, int k) {
  if (!std::isfinite(c)) return;
  uint64_t b = ub(std::fabs(c));
  for (int64_t j = -k; j <= k; j++) {
    int64_t q = (int64_t)b + j;
    if (q < 0 || (uint64_t)q > 0x7ff0000000000000ull) continue;
    v.push_back(fromBits<double>((uint64_t)q));
    v.push_back(fromBits<double>((uint64_t)q | 1ull << 63));
  }
}

// Numbers from the sources: "<double>" lines are values, "t<hex>" lines are
// integer constants, used as trailing mantissa bits.
static std::vector<uint64_t> TAILS;
static std::vector<double> literals() {
  std::vector<double> v;
  TAILS.clear();
  const char *p = getenv("MC_LITERALS");
  FILE *f = p ? fopen(p, "r") : nullptr;
  if (f) {
    char line[256];
    while (fgets(line, sizeof line, f)) {
      if (line[0] == 't') TAILS.push_back(strtoull(line + 1, nullptr, 16));
      else v.push_back(strtod(line, nullptr));
    }
    fclose(f);
  }
  const double base[] = {0, 1, 2, 0.5, 0.625, 0.66, M_PI, M_PI_2, M_PI_4, M_LN2, M_SQRT1_2, 708, 709.78271289338397, -745.13, 5000,
                         88.72283905206835, 88.376, 87.33654, 20, 9.1, 1e-8, 1e-7, 1e-4, 1e307, 2147483648.0, 16777216.0,
                         4503599627370496.0, 9007199254740992.0, 2.2250738585072014e-308, 1.7976931348623157e308, 4.9e-324};
  for (double b : base) v.push_back(b);
  return v;
}

static DSpace dspace(int id, bool thorough) {
  DSpace s;
  const uint64_t A = 0x5555555555555555ull;
  int e0 = -30, e1 = 12;
  switch (id) {
    case EXP: e0 = -54; e1 = 9; break;
    case LOG: e0 = -3; e1 = 3; break;
    case TANH: e0 = -30; e1 = 5; break;
    case ASIN: case ACOS: e0 = -30; e1 = 0; break;
    case ATAN: e0 = -30; e1 = 30; break;
    case ISQRT: case INV: case AISQRT: case AINV: e0 = -2; e1 = 3; break;
  }
  const std::vector<double> lits = literals();
  // sparse lattice: every exponent
  s.g.push_back({-1023, 1024, thorough ? 13 : 10, 2, {0, ~0ull, A, ~A, 1, 0x0123456789abcdefull}});
  if (!TAILS.empty()) s.g.push_back({-1023, 1024, thorough ? 6 : 3, 2, TAILS});
  // dense lattice on the binades where the function does something
  int mb = thorough ? 24 : 18;
  if (e1 - e0 < 10) mb += 3;
  s.g.push_back({e0, e1, mb, 2, {0, ~0ull, A}});
  // windows
  const int W = thorough ? 4096 : 512;
  for (double c : lits) {
    const double d[] = {c, std::sqrt(std::fabs(c)), c * c, 1 / c, c * 2, c / 2, c + 1, c - 1, 1 - c};
    for (int i = 0; i < 9; i++) window(s.pts, d[i], i == 0 ? W : W / 4);
    const double q[] = {std::exp(c), std::log(std::fabs(c)), std::tan(c), std::atan(c), std::sin(c), std::asin(c), std::cbrt(c), c * c * c, c * c * c * c};
    for (double v : q) window(s.pts, v, 16);
    if (std::fabs(c) < 10)
      for (int k = 1; k <= 16; k++)
        for (int g = -1; g <= 1; g += 2) {
          window(s.pts, k * M_PI_4 + g * c, 4); window(s.pts, k * M_LN2 / 2 + g * c, 4);
          window(s.pts, k * M_PI_4 + g * std::sqrt(std::fabs(c)), 4); window(s.pts, k * M_LN2 / 2 + g * std::sqrt(std::fabs(c)), 4);
        }
    // geometric approach towards the literal
    for (int j = 1; j <= 52; j++) { window(s.pts, c * (1 + std::ldexp(1.0, -j)), 1); window(s.pts, c * (1 - std::ldexp(1.0, -j)), 1); }
  }
  if (id == SIN || id == COS || id == TAN || id == SCSIN || id == SCCOS)
    for (int k = 1; k <= 6370; k++) {
      double c = (double)(k * 0.78539816339744830961566084581987572L);
      window(s.pts, c, thorough ? 64 : 8);
      for (int j = 0; j <= 56; j++) { window(s.pts, c + std::ldexp(1.0, -j), 1); window(s.pts, c - std::ldexp(1.0, -j), 1); }
    }
  if (id == EXP || id == TANH)
    for (int k = 1; k <= 2150; k++) {
      double c = (double)(k * 0.34657359027997265470861606072908828L);
      window(s.pts, c, thorough ? 64 : 16);
      for (int j = 0; j <= 56; j++) { window(s.pts, c + std::ldexp(1.0, -j), 1); window(s.pts, c - std::ldexp(1.0, -j), 1); }
    }
  for (int k = 0; k <= 65536; k++) { s.pts.push_back(k); s.pts.push_back(-k); s.pts.push_back(k / 64.0); s.pts.push_back(-k / 64.0); s.pts.push_back(k / 65536.0); s.pts.push_back(-k / 65536.0); }
  return s;
}

template <class T> struct Space;
template <> struct Space<float> {
  Space(int, bool) {}
  uint64_t size() const { return 1ull << 32; }
  float at(uint64_t i) const { return fromBits<float>(i); }
};
template <> struct Space<double> {
  DSpace s;
  Space(int id, bool th) : s(dspace(id, th)) {}
  uint64_t size() const { return s.size(); }
  double at(uint64_t i) const { return s.at(i); }
};

template <class T> const char *tn();
template <> inline const char *tn<float>() { return "f"; }
template <> inline const char *tn<double>() { return "d"; }

#endif
