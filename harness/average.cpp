// Average number of differing bits on equally spaced arguments, in slices of the
// interval and in binades.
//   average run                             exploration (JSON)
//   average replay <fn> <f|d> <whole|slice|binade> <index>
//   average echo <fn> <f|d> <kind> <index>  the same, as a trace line
// With MC_DENSE set 32 times as many points.
#include "vdtMath.h"
#include "contract.hpp"

// limits: average over the interval, over a slice, over a binade
struct Row { const char *name; double lo, hi, dlo, dhi, whole, slice, binade; };
static const double BIG = 1e300, BIGF = 1e30;
static const Row ROWD[] = {
  {"exp", -705, 705, -705, 705, .29, .40, .45}, {"log", 0, 5000, 1e-300, BIG, .57, .25, .30},
  {"sin", -5000, 5000, -5000, 5000, .40, .50, .50}, {"cos", -5000, 5000, -5000, 5000, .40, .50, .50},
  {"tan", -5000, 5000, -5000, 5000, .50, .60, 3.5}, {"tanh", -20, 20, -BIG, BIG, .50, 1.1, 1.15},
  {"asin", -1, 1, -1, 1, .47, .50, .45}, {"acos", -1, 1, -1, 1, .54, 4.0, 1.25},
  {"atan", -5000, 5000, -BIG, BIG, .48, .50, 1.0}, {"isqrt", 0, 5000, 1e-300, BIG, .60, .85, .70},
  {"inv", -5000, 5000, -BIG, BIG, 1.1, 1.4, 1.2}};
static const Row ROWF[] = {
  {"exp", -85, 85, -85, 85, .45, .65, .60}, {"log", 0, 5000, 1e-35, 1e35, .20, .25, .30},
  {"sin", -5000, 5000, -5000, 5000, .35, .40, .45}, {"cos", -5000, 5000, -5000, 5000, .35, .40, .45},
  {"tan", -5000, 5000, -5000, 5000, .55, .60, .65}, {"tanh", -10, 10, -BIGF, BIGF, .70, 1.25, 1.25},
  {"asin", -1, 1, -1, 1, .50, 1.05, .85}, {"acos", -1, 1, -1, 1, .60, 3.3, 1.25},
  {"atan", -5000, 5000, -BIGF, BIGF, .55, .60, 1.25}, {"isqrt", 0, 5000, 1e-35, 1e35, 4.3, 7.4, 4.7},
  {"inv", -5000, 5000, -BIGF, BIGF, 5.2, 8.0, 6.6}};
static const int N = 11;
template <class T> const Row &row(int f);
template <> const Row &row<float>(int f) { return ROWF[f]; }
template <> const Row &row<double>(int f) { return ROWD[f]; }

#define FNS(M) M(0, exp) M(1, log) M(2, sin) M(3, cos) M(4, tan) M(5, tanh) M(6, asin) M(7, acos) M(8, atan) M(9, isqrt) M(10, inv)
static float call(int f, float x) {
#define CF(i, n) if (f == i) return vdt::fast_##n##f(x);
  FNS(CF)
  return 0;
}
static double call(int f, double x) {
#define CD(i, n) if (f == i) return vdt::fast_##n(x);
  FNS(CD)
  return 0;
}
template <class R> R refOf(int f, R x) {
  switch (f) {
    case 0: return std::exp(x);
    case 1: return std::log(x);
    case 2: return std::sin(x);
    case 3: return std::cos(x);
    case 4: return std::tan(x);
    case 5: return std::tanh(x);
    case 6: return std::asin(x);
    case 7: return std::acos(x);
    case 8: return std::atan(x);
    case 9: return 1 / std::sqrt(x);
  }
  return 1 / x;
}
template <class T> int bits(T a, T b) {
  const uint64_t i = ub(a), j = ub(b);
  int n = 0;
  for (uint64_t d = i > j ? i - j : j - i; d; d >>= 1) n++;
  return n;
}

enum { WHOLE, SLICE, BINADE };
static const char *KIND[] = {"whole", "slice", "binade"};
static int SL = 1 << 13, BN = 1 << 12;   // points per slice and per binade
template <class T> uint64_t count(int kind) { return kind == WHOLE ? 1 : kind == SLICE ? 256 : sizeof(T) == 8 ? 2 * 2044 : 2 * 252; }
template <class T> T point(const Row &w, int kind, uint64_t idx, int i) {
  if (kind == SLICE) return (T)(w.lo + (w.hi - w.lo) * ((double)idx * SL + i + 0.5) / SL / 256);
  const int half = count<T>(BINADE) / 2, e = (int)(idx % half) - half / 2 + 1;
  const double m = 1 + (i + (double)((uint64_t)i * 0x9e3779b9u % BN) / BN) / BN;
  return (T)((idx < (uint64_t)half ? 1 : -1) * std::ldexp(m, e));
}
struct Mean { double sum; uint64_t n; };
template <class T> Mean measure(int f, int kind, uint64_t idx) {
  typedef typename U<T>::ref R;
  const Row &w = row<T>(f);
  Mean m = {0, 0};
  for (int i = 0; i < (kind == SLICE ? SL : BN); i++) {
    const T x = point<T>(w, kind, idx, i);
    if (kind == BINADE && !(x >= w.dlo && x <= w.dhi)) continue;
    m.sum += bits<T>(call(f, x), (T)refOf<R>(f, (R)x));
    m.n++;
  }
  return m;
}
template <class T> Mean average(int f, int kind, uint64_t idx) {
  if (kind != WHOLE) return measure<T>(f, kind, idx);
  Mean m = {0, 0};
  for (int s = 0; s < 256; s++) { const Mean q = measure<T>(f, SLICE, s); m.sum += q.sum; m.n += q.n; }
  return m;
}
template <class T> double limit(int f, int kind) { const Row &w = row<T>(f); return kind == WHOLE ? w.whole : kind == SLICE ? w.slice : w.binade; }
template <class T> std::string key(int f, int kind, uint64_t idx) { return std::string(row<T>(f).name) + " " + tn<T>() + " " + KIND[kind] + " " + std::to_string(idx); }
template <class T> std::string trace(int f, int kind, uint64_t idx, const Mean &m) { return key<T>(f, kind, idx) + " -> " + std::to_string((uint64_t)m.sum) + "/" + std::to_string(m.n); }
template <class T> std::string text(int f, int kind, uint64_t idx, const Mean &m) {
  return std::string(row<T>(f).name) + (sizeof(T) == 4 ? " single" : " double") + " precision, average over " +
         (kind == WHOLE ? "the interval" : kind == SLICE ? "slice " + std::to_string(idx) : "the binade of " + hexf(point<T>(row<T>(f), kind, idx, 0))) +
         ": " + std::to_string(m.sum / m.n) + " bits, limit " + std::to_string(limit<T>(f, kind));
}
// a binade cut by the end of the domain counts when enough of it is left
static bool bad(const Mean &m, double lim) { return m.n > 200 && !(m.sum / m.n <= lim); }

template <class T> Result all() {
  const uint64_t B = count<T>(BINADE), per = 256 + B;
  std::vector<Mean> slices(N * 256);
  Result r = explore(N * per, 16, [&](uint64_t b, uint64_t e, Result &q) {
    for (uint64_t i = b; i < e; i++) {
      const int f = i / per, kind = i % per < 256 ? SLICE : BINADE;
      const uint64_t idx = kind == SLICE ? i % per : i % per - 256;
      const Mean m = measure<T>(f, kind, idx);
      q.transitions += m.n;
      if (kind == SLICE) slices[f * 256 + idx] = m;
      if (!m.n) continue;
      q.states++;
      if (bad(m, limit<T>(f, kind))) q.fail(i, key<T>(f, kind, idx), text<T>(f, kind, idx, m));
      const std::string n = std::string(row<T>(f).name) + tn<T>() + "." + KIND[kind];
      auto it = q.worst.find(n);
      if (m.n > 200 && (it == q.worst.end() || m.sum / m.n > it->second.first)) q.worst[n] = {m.sum / m.n, trace<T>(f, kind, idx, m)};
    }
  });
  for (int f = 0; f < N; f++) {
    Mean m = {0, 0};
    for (int s = 0; s < 256; s++) { m.sum += slices[f * 256 + s].sum; m.n += slices[f * 256 + s].n; }
    r.states++;
    if (bad(m, limit<T>(f, WHOLE))) r.fail(f, key<T>(f, WHOLE, 0), text<T>(f, WHOLE, 0, m));
    r.worst[std::string(row<T>(f).name) + tn<T>() + ".whole"] = {m.sum / m.n, trace<T>(f, WHOLE, 0, m)};
  }
  return r;
}
template <class T> int single(char **v, bool echo) {
  int f = 0, k = 0;
  for (int i = 0; i < N; i++) if (!strcmp(v[2], row<T>(i).name)) f = i;
  for (int i = 0; i < 3; i++) if (!strcmp(v[4], KIND[i])) k = i;
  const uint64_t idx = strtoull(v[5], nullptr, 0);
  const Mean m = average<T>(f, k, idx);
  if (echo) { puts(trace<T>(f, k, idx, m).c_str()); return 0; }
  puts(text<T>(f, k, idx, m).c_str());
  return bad(m, limit<T>(f, k));
}
int main(int, char **v) {
  if (getenv("MC_DENSE")) { SL <<= 5; BN <<= 5; }
  if (strcmp(v[1], "run")) return v[3][0] == 'f' ? single<float>(v, v[1][0] == 'e') : single<double>(v, v[1][0] == 'e');
  Result r = all<float>();
  r.merge(all<double>());
  print(r);
}
