// The floating point environment of the caller: subnormal flushing and the four
// rounding directions.
//   env run <tier>                          exploration (JSON)
//   env replay <kind> <fn> <f|d> <hex> [<hex>]     kind: flush, up, down, zero
//   env echo <fn> <f|d> <hex>...            result bits per environment
// The result in the default environment is the reference: its accuracy is the
// business of other explorers.
#include "vdtMath.h"
#include "contract.hpp"
#include "lattice.hpp"
#define NI __attribute__((noinline))

template <int ID> struct Op;
#define OP(ID, n) \
  template <> struct Op<ID> { \
    static inline float f(float x) { return vdt::fast_##n##f(x); } \
    static inline double f(double x) { return vdt::fast_##n(x); } \
  };
OP(EXP, exp) OP(LOG, log) OP(SIN, sin) OP(COS, cos) OP(TAN, tan) OP(TANH, tanh) OP(ASIN, asin) OP(ACOS, acos) OP(ATAN, atan)
OP(ISQRT, isqrt) OP(INV, inv) OP(AISQRT, approx_isqrt) OP(AINV, approx_inv)
template <> struct Op<SCSIN> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
};
template <> struct Op<SCCOS> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return c; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return c; }
};
enum { ATAN2 = NFN, ALL };
#define LIST(M) M(EXP) M(LOG) M(SIN) M(COS) M(TAN) M(TANH) M(ASIN) M(ACOS) M(ATAN) M(ISQRT) M(INV) M(AISQRT) M(AINV) M(SCSIN) M(SCCOS)
static const char *NAME[ALL] = {"exp", "log", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "inv", "approx_isqrt", "approx_inv", "sincos.sin", "sincos.cos", "atan2"};

template <int ID, class T> NI void block(const T *__restrict__ x, const T *, T *__restrict__ y, size_t n) {
  for (size_t i = 0; i < n; i++) y[i] = Op<ID>::f(x[i]);
}
static NI void block2(const double *__restrict__ a, const double *__restrict__ b, double *__restrict__ y, size_t n) { for (size_t i = 0; i < n; i++) y[i] = vdt::fast_atan2(a[i], b[i]); }
static NI void block2(const float *__restrict__ a, const float *__restrict__ b, float *__restrict__ y, size_t n) { for (size_t i = 0; i < n; i++) y[i] = vdt::fast_atan2f(a[i], b[i]); }
template <class T> using Block = void (*)(const T *, const T *, T *, size_t);
template <class T> struct Table { Block<T> f[ALL]; Table() {
#define REG(ID) f[ID] = block<ID, T>;
    LIST(REG)
    f[ATAN2] = (void (*)(const T *, const T *, T *, size_t))block2;
  } };
template <class T> Block<T> fn(int id) { static const Table<T> t; return t.f[id]; }

enum { NEAREST, FLUSH, UP, DOWN, ZERO, ENVS };
static const char *ENVN[ENVS] = {"default", "flush", "up", "down", "zero"};
static const unsigned MX[ENVS] = {0, 0x8040, 2u << 13, 1u << 13, 3u << 13};
template <class T> NI void evalIn(int env, int id, const T *a, const T *b, T *y, size_t n) {
  const unsigned old = __builtin_ia32_stmxcsr();
  const Block<T> f = fn<T>(id);
  __builtin_ia32_ldmxcsr(old | MX[env]);
  f(a, b, y, n);
  __builtin_ia32_ldmxcsr(old);
}

template <class T> bool domain(int id, T x, T y) {
  const T TINY = 16 * std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max();
  if (!std::isfinite(x) || (x != 0 && std::fabs(x) < TINY)) return false;
  switch (id) {
    case EXP: return x >= (T)C<T>::expLo && x <= (T)C<T>::expHiMay;
    case LOG: return x > 0 && x <= (T)C<T>::logMay;
    case SIN: case COS: case SCSIN: case SCCOS: case TAN: return std::fabs(x) <= (T)C<T>::trigDom;
    case ASIN: case ACOS: return std::fabs(x) <= 1;
    case ISQRT: case AISQRT: return x > 0 && x <= MAXN;
    case INV: case AINV: return x != 0 && std::fabs(x) <= (T)C<T>::invHi;
    case ATAN2: return std::isfinite(y) && (y == 0 || std::fabs(y) >= TINY) && (x == 0 || y == 0 || (std::fabs(x / y) < MAXN / 16 && std::fabs(x / y) > TINY));
  }
  return true;
}
// how far a result may be from the default one, in units of the bound
template <class T> double measure(int id, T g, T d) {
  typedef typename U<T>::ref R;
  typedef C<T> K;
  if (same(g, d)) return 0;
  if (!std::isfinite(g) || !std::isfinite(d)) return INFINITY;
  const R e = std::fabs((R)g - (R)d), u = e / ulpOf<T>((R)d), rel = e / std::fabs((R)d);
  switch (id) {
    case SIN: case COS: case SCSIN: case SCCOS: return (double)(e / (R)K::trigAbs);
    case ACOS: return (double)(e / (R)K::acosAbs);
    case TAN: return (double)(e / ((R)K::tanUlp * ulpOf<T>((R)d) + (1 + (R)d * (R)d) * (R)(sizeof(T) == 4 ? 1e-9 : 1e-18)));
    case EXP: return (double)(u / K::expUlp);
    case LOG: return (double)(u / K::logUlp);
    case TANH: return (double)(u / K::tanhUlp);
    case ASIN: return (double)(u / K::asinUlp);
    case ATAN: return (double)(u / K::atanUlp);
    case ATAN2: return (double)(rel / (R)(sizeof(T) == 4 ? 4e-7 : 5e-16));
    case ISQRT: return (double)(rel / (R)K::isqrtRel);
    case AISQRT: return (double)(rel / (R)K::aisqrtRel);
    case INV: return (double)(rel / (R)K::invRel);
  }
  return (double)(rel / (R)K::ainvRel);
}
static const double LIMIT = 4;
template <class T> bool okay(int env, int id, T g, T d, double *m) {
  const T TINY = 16 * std::numeric_limits<T>::min();
  if (d != 0 && std::fabs(d) < TINY) return true;  // results next to the subnormals may be flushed
  if (env == FLUSH) return same(g, d);
  *m = measure<T>(id, g, d);
  return *m <= LIMIT;
}
template <class T> std::string keyOf(int env, int id, T x, T y) {
  char b[128];
  snprintf(b, sizeof b, "%s %s %s %llx", ENVN[env], NAME[id], tn<T>(), (unsigned long long)ub(x));
  std::string s = b;
  if (id == ATAN2) { snprintf(b, sizeof b, " %llx", (unsigned long long)ub(y)); s += b; }
  return s;
}
template <class T> std::string textOf(int env, int id, T x, T y, T g, T d) {
  return std::string(NAME[id]) + "(" + hexf(x) + (id == ATAN2 ? ", " + hexf(y) : "") + ") " + (env == FLUSH ? "with subnormals flushed" : std::string("rounding ") + (env == UP ? "up" : env == DOWN ? "down" : "to zero")) +
         ": " + hexf(g) + ", default environment " + hexf(d);
}
template <class T> std::string trace(int id, T x) {
  std::string s = std::string(NAME[id]) + " " + tn<T>();
  char b[40];
  snprintf(b, sizeof b, " %llx ->", (unsigned long long)ub(x));
  s += b;
  for (int e = 0; e < ENVS; e++) { T g; evalIn<T>(e, id, &x, &x, &g, 1); snprintf(b, sizeof b, " %llx", (unsigned long long)ub(g)); s += b; }
  return s;
}

const uint64_t BLK = 1024;
// judges all environments on k collected arguments
template <class T> void judgeBlock(int id, const T *a, const T *b, size_t k, uint64_t base, Result &r) {
  static thread_local std::vector<T> ys[ENVS];
  for (int e = 0; e < ENVS; e++) { ys[e].resize(BLK); evalIn<T>(e, id, a, b, ys[e].data(), k); }
  r.states += k;
  r.transitions += ENVS * k;
  double w[ENVS] = {0};
  size_t wi[ENVS] = {0};
  for (int e = 1; e < ENVS; e++)
    for (size_t i = 0; i < k; i++) {
      if (ub(ys[e][i]) == ub(ys[0][i])) continue;
      double m = 0;
      if (!okay<T>(e, id, ys[e][i], ys[0][i], &m)) r.fail(base + i, keyOf<T>(e, id, a[i], b[i]), textOf<T>(e, id, a[i], b[i], ys[e][i], ys[0][i]));
      if (m > w[e]) { w[e] = m; wi[e] = i; }
    }
  for (int e = 2; e < ENVS; e++)
    if (w[e] > 0) {
      const std::string n = std::string(NAME[id]) + tn<T>() + "." + ENVN[e];
      auto it = r.worst.find(n);
      if (it == r.worst.end() || w[e] > it->second.first) r.worst[n] = {w[e], keyOf<T>(e, id, a[wi[e]], b[wi[e]])};
    }
}
template <class T> Result one(int id, bool th) {
  Space<T> sp(id, th);
  const uint64_t step = sizeof(T) == 4 ? (th ? 1 : 16) : th ? 8 : 4, n = sp.size() / step;
  return explore(n, 1 << 14, [&](uint64_t b, uint64_t e, Result &r) {
    std::vector<T> xs(BLK);
    for (uint64_t q = b; q < e; q += BLK) {
      size_t k = 0;
      for (uint64_t i = q; i < std::min(e, q + BLK); i++) {
        const T x = sp.at(i * step + (i * 5 + (i >> 9)) % step);
        if (domain<T>(id, x, 0)) xs[k++] = x;
      }
      judgeBlock<T>(id, xs.data(), xs.data(), k, q, r);
    }
    if ((b >> 14) % ((n >> 14) / 3 + 1) == (n >> 14) / 6) r.samples.push_back(trace<T>(id, domain<T>(id, xs[0], 0) ? xs[0] : (T)((b + 1) / (T)(n + 1))));
  });
}
template <class T> Result two(bool th) {
  const std::vector<T> a = args<T>();
  const size_t shifts = th ? 997 : 101;
  return explore(shifts, 1, [&](uint64_t b, uint64_t, Result &r) {
    std::vector<T> xs(BLK), ys(BLK);
    size_t k = 0;
    for (size_t i = 0; i < a.size(); i++) {
      const T x = a[i], y = a[(i * 7 + b * 131) % a.size()];
      if (domain<T>(ATAN2, x, y)) { xs[k] = x; ys[k++] = y; }
      if (k == BLK || i + 1 == a.size()) { judgeBlock<T>(ATAN2, xs.data(), ys.data(), k, i, r); k = 0; }
    }
  });
}
template <class T> int replay(int env, int id, T x, T y) {
  // alone and as part of a vectorised block
  bool bad = false;
  for (size_t n : {(size_t)1, (size_t)64}) {
    std::vector<T> a(n, x), b(n, y), g(n), d(n);
    evalIn<T>(NEAREST, id, a.data(), b.data(), d.data(), n);
    evalIn<T>(env, id, a.data(), b.data(), g.data(), n);
    double m = 0;
    for (size_t i = 0; i < n; i++) bad = bad || !okay<T>(env, id, g[i], d[i], &m);
    if (n == 1 || bad) printf("%s (%g of the bound)\n", textOf<T>(env, id, x, y, g[0], d[0]).c_str(), m);
  }
  puts(bad ? "VIOLATED" : "HELD");
  return bad;
}
int main(int c, char **v) {
  const std::string mode = v[1];
  auto idOf = [](const char *n) { for (int i = 0; i < ALL; i++) if (!strcmp(n, NAME[i])) return i; exit(2); };
  if (mode == "replay") {
    int env = 0;
    for (int e = 1; e < ENVS; e++) if (!strcmp(v[2], ENVN[e])) env = e;
    const int id = idOf(v[3]);
    const uint64_t x = strtoull(v[5], nullptr, 16), y = c > 6 ? strtoull(v[6], nullptr, 16) : x;
    return v[4][0] == 'f' ? replay<float>(env, id, fromBits<float>(x), fromBits<float>(y)) : replay<double>(env, id, fromBits<double>(x), fromBits<double>(y));
  }
  if (mode == "echo") {
    for (int i = 4; i < c; i++) {
      const uint64_t u = strtoull(v[i], nullptr, 16);
      puts((v[3][0] == 'f' ? trace<float>(idOf(v[2]), fromBits<float>(u)) : trace<double>(idOf(v[2]), fromBits<double>(u))).c_str());
    }
    return 0;
  }
  const bool th = !strcmp(v[2], "thorough");
  Result r;
  for (int id = 0; id < NFN; id++) {
    if (!th && (id == SCSIN || id == SCCOS)) continue;
    r.merge(one<float>(id, th));
    r.merge(one<double>(id, th));
  }
  r.merge(two<float>(th));
  r.merge(two<double>(th));
  print(r);
}
