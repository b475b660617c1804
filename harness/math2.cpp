// Exhaustive exploration of the two-argument arc tangent.
//   math2 acc <tier>      accuracy, quadrants, axes
//   math2 fpe <tier>      floating point exceptions
//   math2 replay <acc|fpe> <f|d> <hex y> <hex x>
//   math2 echo <f|d> (<hex y> <hex x>)...
#include "vdtMath.h"
#include "mathspace.hpp"
typedef long double LD;
#define NI __attribute__((noinline))
static NI float at2(float y, float x) { return vdt::fast_atan2f(y, x); }
static NI double at2(double y, double x) { return vdt::fast_atan2(y, x); }
static double ref2(float y, float x) { return std::atan2((double)y, (double)x); }
static LD ref2(double y, double x) { return atan2l((LD)y, (LD)x); }

template <class T> struct K;
template <> struct K<float> { static constexpr double rel = 4.0e-7; };
template <> struct K<double> { static constexpr double rel = 5.0e-16; };

template <class T> inline bool usable(T v) { return v == 0 || (std::isfinite(v) && std::fabs(v) >= std::numeric_limits<T>::min()); }

// m: relative error
template <class T> inline bool ok2(T y, T x, T g, typename U<T>::ref r, double &m) {
  typedef typename U<T>::ref R;
  m = 0;
  const T PI = (T)3.14159265358979323846264338327950288L, PIO2 = (T)1.57079632679489661923132169163975144L;
  if (y == 0) {
    if (x >= 0) return g == 0;
    return std::signbit(y) ? std::fabs(g) == PI : g == PI;
  }
  if (x == 0) return g == (y > 0 ? PIO2 : -PIO2);
  if (!std::isfinite(g)) return false;
  const R e = std::fabs((R)g - r);
  if (std::fabs(r) < (R)std::numeric_limits<T>::min()) return e <= (R)std::numeric_limits<T>::min();
  if ((g > 0) != (y > 0)) return false;
  m = (double)(e / std::fabs(r));
  return m <= K<T>::rel;
}

template <class T> std::string keyOf(const char *mode, T y, T x) {
  char b[96];
  snprintf(b, sizeof b, "%s %s %llx %llx", mode, tn<T>(), (unsigned long long)ub(y), (unsigned long long)ub(x));
  return b;
}
template <class T> std::string traceOf(T y, T x) {
  char b[160];
  snprintf(b, sizeof b, "atan2 %s %llx %llx -> %llx", tn<T>(), (unsigned long long)ub(y), (unsigned long long)ub(x), (unsigned long long)ub(at2(y, x)));
  return b;
}
template <class T> std::string textOf(T y, T x) {
  char b[300];
  snprintf(b, sizeof b, "atan2(%s, %s) = %s, reference %.21Lg", hexf(y).c_str(), hexf(x).c_str(), hexf(at2(y, x)).c_str(), (LD)ref2(y, x));
  return b;
}

// all exponents x mantissas x signs, zeros
template <class T> std::vector<T> lattice(const std::vector<uint64_t> &mant, int estep) {
  const int MB = sizeof(T) == 4 ? 23 : 52, EMAX = sizeof(T) == 4 ? 254 : 2046, BIAS = EMAX / 2;
  std::vector<T> v;
  v.push_back((T)0.0); v.push_back((T)-0.0);
  std::set<int> es;
  for (int e = 1; e <= EMAX; e += estep) es.insert(e);
  for (int e = -70; e <= 70; e++) es.insert(BIAS + e);
  for (int e : {1, 2, EMAX - 1, EMAX}) es.insert(e);
  for (uint64_t s = 0; s < 2; s++)
    for (int e : es) for (uint64_t m : mant) v.push_back(fromBits<T>(s << (MB + 8 + (sizeof(T) == 8 ? 3 : 0)) | (uint64_t)e << MB | m));
  return v;
}

static inline unsigned flags() { return __builtin_ia32_stmxcsr(); }
static inline void clearFlags() { __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() & ~0x3fu); }
static const unsigned BAD = 1 | 4 | 8;
template <class T> unsigned fpeOf(T y, T x) { clearFlags(); volatile T g = at2(y, x); (void)g; return flags() & BAD; }

template <class T> NI void evalRow(const T *__restrict__ ys, const T *__restrict__ xs, T *__restrict__ g, size_t n);
template <> NI void evalRow<float>(const float *__restrict__ ys, const float *__restrict__ xs, float *__restrict__ g, size_t n) { for (size_t i = 0; i < n; i++) g[i] = vdt::fast_atan2f(ys[i], xs[i]); }
template <> NI void evalRow<double>(const double *__restrict__ ys, const double *__restrict__ xs, double *__restrict__ g, size_t n) { for (size_t i = 0; i < n; i++) g[i] = vdt::fast_atan2(ys[i], xs[i]); }

template <class T> void one(uint64_t idx, T y, T x, bool fpe, Result &r, double &w, std::pair<T, T> &wp) {
  r.states++;
  if (fpe) return;  // handled per block
  double m;
  r.transitions++;
  if (!ok2<T>(y, x, at2(y, x), ref2(y, x), m)) r.fail(idx, keyOf<T>("acc", y, x), textOf<T>(y, x));
  if (m > w) { w = m; wp = {y, x}; }
}

template <class T> void fpeBlock(uint64_t idx, const std::vector<T> &ys, const std::vector<T> &xs, std::vector<T> &g, Result &r) {
  clearFlags();
  evalRow<T>(ys.data(), xs.data(), g.data(), ys.size());
  r.transitions += ys.size();
  if (!(flags() & BAD)) return;
  bool any = false;
  for (size_t i = 0; i < ys.size(); i++)
    if (unsigned f = fpeOf<T>(ys[i], xs[i])) {
      any = true;
      r.fail(idx + i, keyOf<T>("fpe", ys[i], xs[i]), "atan2(" + hexf(ys[i]) + ", " + hexf(xs[i]) + ") raised" + (f & 1 ? " invalid" : "") + (f & 4 ? " divide-by-zero" : "") + (f & 8 ? " overflow" : ""));
    }
  if (!any) r.counts["block_only_flags"]++;
}

template <class T> void finish(Result &r, double w, const std::pair<T, T> &wp) {
  if (w <= 0) return;
  std::string k = std::string("atan2") + tn<T>();
  auto it = r.worst.find(k);
  if (it == r.worst.end() || w > it->second.first) r.worst[k] = {w, traceOf<T>(wp.first, wp.second)};
}

// full square of a value list
template <class T> Result square(const std::vector<T> &v, bool fpe) {
  return explore(v.size(), 16, [&](uint64_t b, uint64_t e, Result &r) {
    double w = 0; std::pair<T, T> wp;
    std::vector<T> ys, g(v.size());
    for (uint64_t i = b; i < e; i++) {
      if (fpe) { ys.assign(v.size(), v[i]); fpeBlock<T>(i * v.size(), ys, v, g, r); r.states += v.size(); continue; }
      for (uint64_t j = 0; j < v.size(); j++) one<T>(i * v.size() + j, v[i], v[j], fpe, r, w, wp);
    }
    finish<T>(r, w, wp);
    if (b / 16 % 97 == 5) r.samples.push_back(traceOf<T>(v[b], v[(b * 7919) % v.size()]));
  });
}

// every positive finite normal float against +-1 in all placements; a state is
// the float, with one call per placement
static Result sweep(bool th, bool fpe) {
  const uint64_t lo = 0x00800000, hi = 0x7f800000;
  return explore(hi - lo, 1 << 16, [&](uint64_t b, uint64_t e, Result &r) {
    double w = 0; std::pair<float, float> wp;
    const double PI = 3.14159265358979323846;
    const size_t B = 1024;
    std::vector<float> ys(B), xs(B), g(B), a(B);
    std::vector<double> t(B), u(B);
    for (uint64_t q = b; q < e; q += B) {
      const size_t n = std::min(e, q + B) - q;
      ys.resize(n); xs.resize(n); g.resize(n);
      for (size_t i = 0; i < n; i++) {
        a[i] = fromBits<float>(lo + q + i);
        if (!fpe) { t[i] = std::atan((double)a[i]); u[i] = a[i] > 1e-5f && a[i] < 1e5f ? std::atan(1 / (double)a[i]) : a[i] >= 1e5f ? 1 / (double)a[i] * (1 - 1 / ((double)a[i] * a[i]) / 3) : PI / 2 - a[i]; }
      }
      for (int k = 0; k < 8; k++) {
        // quick: only one placement per order for exceptions, only abscissa +-1 for accuracy
        if (fpe && !th && k != 0 && k != 7) continue;
        if (!fpe && !th && k > 3) continue;
        const float sy = k & 1 ? -1.f : 1.f, sx = k & 2 ? -1.f : 1.f;
        for (size_t i = 0; i < n; i++) { ys[i] = k & 4 ? sy : sy * a[i]; xs[i] = k & 4 ? sx * a[i] : sx; }
        if (fpe) { fpeBlock<float>(q * 8, ys, xs, g, r); continue; }
        evalRow<float>(ys.data(), xs.data(), g.data(), n);
        r.transitions += n;
        for (size_t i = 0; i < n; i++) {
          double rr = k & 4 ? u[i] : t[i];
          if (sx < 0) rr = PI - rr;
          if (sy < 0) rr = -rr;
          // fast path: no new worst case, within the bound, right sign
          const double err = std::fabs((double)g[i] - rr), mag = std::fabs(rr);
          if (err <= w * mag && mag > 2e-38 && (g[i] > 0) == (ys[i] > 0)) continue;
          double m;
          if (!ok2<float>(ys[i], xs[i], g[i], rr, m)) r.fail((q + i) * 8 + k, keyOf<float>("acc", ys[i], xs[i]), textOf<float>(ys[i], xs[i]));
          else if (m > w) { w = m; wp = {ys[i], xs[i]}; }
        }
      }
    }
    r.states += e - b;
    finish<float>(r, w, wp);
    if ((b >> 16) % 7001 == 11) r.samples.push_back(traceOf<float>(fromBits<float>(lo + b), 1.f));
  });
}

// double: the one-argument space of atan as ordinate or abscissa against a set of partners
static Result dsweep(bool th, bool fpe) {
  Space<double> sp(ATAN, th);
  const double partners[] = {1, -1, 3.0000000000000004, -1e-300, 1e300, 0.66};
  const uint64_t np = th ? 6 : 3, np0 = sp.s.pts.size();
  // literal windows with all partners, lattice with the first two
  return explore(sp.size(), 1 << 14, [&](uint64_t b, uint64_t e, Result &r) {
    double w = 0; std::pair<double, double> wp;
    for (uint64_t p = 0; p < (b < np0 ? np : 1); p++) {
      std::vector<double> ys, xs, g;
      for (uint64_t i = b; i < e; i++) {
        const double a = sp.at(i), q = partners[p];
        if (!usable(a)) continue;
        if (fpe) { ys.push_back(a); xs.push_back(q); ys.push_back(q); xs.push_back(a); r.states += 2; continue; }
        one<double>(i * 16 + p * 2, a, q, fpe, r, w, wp);
        one<double>(i * 16 + p * 2 + 1, q, a, fpe, r, w, wp);
      }
      g.resize(ys.size());
      if (fpe) fpeBlock<double>(b * 16, ys, xs, g, r);
    }
    finish<double>(r, w, wp);
    if ((b >> 14) % 1501 == 11) r.samples.push_back(traceOf<double>(sp.at(b), 1.0));
  });
}

// double: pairs of literals and neighbours
static Result litPairs(bool fpe) {
  std::vector<double> v;
  for (double c : literals()) { window(v, c, 1); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  std::vector<double> u;
  for (double c : v) if (usable(c)) u.push_back(c);
  return square<double>(u, fpe);
}
static Result litPairsF(bool fpe) {
  std::vector<float> v;
  for (double c : literals())
    if (std::fabs(c) < 3e38 && std::fabs(c) > 2e-38)
      for (int j = -1; j <= 1; j++) { float f = fromBits<float>(ub((float)c) + j); if (usable(f) && f != 0) { v.push_back(f); v.push_back(-f); } }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return square<float>(v, fpe);
}

template <class T> int replay(const std::string &mode, uint64_t a, uint64_t b) {
  T y = fromBits<T>(a), x = fromBits<T>(b);
  double m;
  bool bad;
  if (mode == "acc") { bad = !ok2<T>(y, x, at2(y, x), ref2(y, x), m); printf("%s\n", textOf<T>(y, x).c_str()); }
  else { bad = fpeOf<T>(y, x); printf("flags %x\n", fpeOf<T>(y, x)); }
  puts(bad ? "VIOLATED" : "HELD");
  return bad;
}

int main(int c, char **v) {
  std::string mode = c > 1 ? v[1] : "";
  auto hx = [](const char *s) { return strtoull(s, nullptr, 16); };
  if (mode == "replay") return v[3][0] == 'f' ? replay<float>(v[2], hx(v[4]), hx(v[5])) : replay<double>(v[2], hx(v[4]), hx(v[5]));
  if (mode == "echo") {
    for (int i = 3; i + 1 < c; i += 2)
      if (v[2][0] == 'f') printf("%" PRIx32 "\n", ub(at2(fromBits<float>(hx(v[i])), fromBits<float>(hx(v[i + 1])))));
      else printf("%" PRIx64 "\n", ub(at2(fromBits<double>(hx(v[i])), fromBits<double>(hx(v[i + 1])))));
    return 0;
  }
  const bool th = !strcmp(v[2], "thorough"), fpe = mode == "fpe";
  std::vector<uint64_t> mf, md;
  for (uint64_t k = 0; k < (th ? 64u : 12u); k++) {
    mf.push_back(k < 2 ? k : k == 2 ? 0x7fffff : (k * 0x9e3779b97f4a7c15ull) >> 41);
    md.push_back(k < 2 ? k : k == 2 ? 0xfffffffffffffull : (k * 0x9e3779b97f4a7c15ull) >> 12);
  }
  if (!th) md.resize(6);
  Result all;
  all.merge(square<float>(lattice<float>(mf, 1), fpe));
  all.merge(square<double>(lattice<double>(md, th ? 4 : 8), fpe));
  all.merge(litPairs(fpe));
  all.merge(litPairsF(fpe));
  all.merge(sweep(th, fpe));
  all.merge(dsweep(th, fpe));
  print(all);
  return 0;
}
