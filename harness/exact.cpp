// Exact values: small arguments, large arguments of the arc tangent, landmarks.
//   exact run <tier|lattice>           exploration (JSON)
//   exact replay <fn> <f|d> <hex> [<hex>]
//   exact echo <fn> <f|d> <hex> [<hex>]     result bits
#include "vdtMath.h"
#include "lattice.hpp"
#define NI __attribute__((noinline))

enum { ATAN2 = NFN, ALL };
static const char *NAME[ALL] = {"exp", "log", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "inv", "approx_isqrt", "approx_inv", "sincos.sin", "sincos.cos", "atan2"};
template <int ID> struct Op;
#define OP(ID, n) \
  template <> struct Op<ID> { \
    static inline float f(float x) { return vdt::fast_##n##f(x); } \
    static inline double f(double x) { return vdt::fast_##n(x); } \
  };
OP(EXP, exp) OP(LOG, log) OP(SIN, sin) OP(COS, cos) OP(TAN, tan) OP(TANH, tanh) OP(ASIN, asin) OP(ACOS, acos) OP(ATAN, atan)
template <> struct Op<SCSIN> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
};
template <> struct Op<SCCOS> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return c; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return c; }
};
#define LIST(M) M(EXP) M(LOG) M(SIN) M(COS) M(TAN) M(TANH) M(ASIN) M(ACOS) M(ATAN) M(SCSIN) M(SCCOS)
static double two(double y, double x) { return vdt::fast_atan2(y, x); }
static float two(float y, float x) { return vdt::fast_atan2f(y, x); }

// the exact value, if the property has one for this argument
template <class T> inline bool wanted(int id, T x, T &w) {
  const bool f = sizeof(T) == 4;
  const T a = std::fabs(x), PI = (T)3.14159265358979323846L, H = (T)1.57079632679489661923L, Q = (T)0.78539816339744830962L;
  switch (id) {
    case SIN: case SCSIN: case TAN: case ASIN: case ATAN:
      if (a <= (f ? (T)std::ldexp(1, -12) : (T)std::ldexp(1, -27))) { w = x; return true; }
      if (id == ASIN && a == 1) { w = x > 0 ? H : -H; return true; }
      if (id == ATAN && a == 1) { w = x > 0 ? Q : -Q; return true; }
      if (id == ATAN && a >= (f ? (T)std::ldexp(1, 26) : (T)std::ldexp(1, 55))) { w = x > 0 ? H : -H; return true; }
      return false;
    case COS: case SCCOS: w = 1; return a <= (f ? (T)std::ldexp(1, -13) : (T)std::ldexp(1, -27));
    case EXP: w = 1; return a <= (f ? (T)std::ldexp(1, -25) : (T)std::ldexp(1, -54));
    case TANH: w = 0; return x == 0;
    case LOG: w = 0; return x == 1;
    case ACOS:
      if (x == 1) { w = 0; return true; }
      if (x == -1) { w = PI; return true; }
      w = H;
      return x == 0;
  }
  return false;
}
// the diagonals of the plane
template <class T> T wanted2(T y, T x) {
  const T Q = (T)0.78539816339744830962L, R = (T)2.35619449019234492885L;
  return y > 0 ? (x > 0 ? Q : R) : (x > 0 ? -Q : -R);
}
template <int ID, class T> NI void block(const T *__restrict__ x, T *__restrict__ y, size_t n) { for (size_t i = 0; i < n; i++) y[i] = Op<ID>::f(x[i]); }
template <class T> void eval(int id, const T *x, T *y, size_t n) {
#define CASE(ID) if (id == ID) return block<ID, T>(x, y, n);
  LIST(CASE)
}
template <class T> T one(int id, T x, T y) {
  volatile T a = x, b = y;
  if (id == ATAN2) return two((T)a, (T)b);
  T i = a, o = 0;
  eval<T>(id, &i, &o, 1);
  return o;
}
template <class T> std::string keyOf(int id, T x, T y) {
  char b[96];
  snprintf(b, sizeof b, "%s %s %llx", NAME[id], sizeof(T) == 4 ? "f" : "d", (unsigned long long)ub(x));
  std::string k = b;
  if (id == ATAN2) { snprintf(b, sizeof b, " %llx", (unsigned long long)ub(y)); k += b; }
  return k;
}
template <class T> std::string textOf(int id, T x, T y, T g, T w) {
  return std::string(NAME[id]) + "(" + hexf(x) + (id == ATAN2 ? ", " + hexf(y) : "") + ") is " + hexf(g) + " instead of " + hexf(w);
}

static const int FNS[] = {EXP, LOG, SIN, COS, TAN, TANH, ASIN, ACOS, ATAN, SCSIN, SCCOS};
template <class T> void judge(const T *x, size_t n, uint64_t base, Result &q) {
  static thread_local std::vector<T> a, y;
  std::vector<uint64_t> at(n);
  a.resize(n);
  y.resize(n);
  q.states += n;   // arguments; transitions: evaluations with an exact value
  for (int id : FNS) {
    size_t m = 0;
    T w = 0;
    for (size_t i = 0; i < n; i++) if (wanted<T>(id, x[i], w)) { at[m] = base + i; a[m++] = x[i]; }
    eval<T>(id, a.data(), y.data(), m);
    q.transitions += m;
    for (size_t i = 0; i < m; i++) {
      wanted<T>(id, a[i], w);
      if (y[i] != w) q.fail(at[i], keyOf<T>(id, a[i], a[i]), textOf<T>(id, a[i], a[i], y[i], w));   // zeros of both signs are equal
    }
  }
}
template <class T> Result lattice() {
  const T INF = std::numeric_limits<T>::infinity(), MN = std::numeric_limits<T>::min(), MX = std::numeric_limits<T>::max();
  std::vector<T> a = args<T>(), d;
  for (T v : {T(0), T(1), INF, std::numeric_limits<T>::denorm_min()}) { a.push_back(v); a.push_back(-v); }
  // every exponent with many mantissas
  const int MB = std::numeric_limits<T>::digits - 1, LOW = sizeof(T) == 4 ? 0 : 1, HIGH = sizeof(T) == 4 ? 254 : 2046;
  for (int e = LOW; e <= HIGH; e++)
    for (uint64_t k = 0; k < 1024; k++) {
      const uint64_t m = k < 512 ? k << (MB - 9) : (k * 0x9e3779b97f4a7c15ull) >> (64 - MB);
      a.push_back(fromBits<T>((uint64_t)e << MB | m));
      a.push_back(-fromBits<T>((uint64_t)e << MB | m));
    }
  for (T v : a) if (v >= MN && v <= MX) d.push_back(v);
  Result r = explore(a.size(), 4096, [&](uint64_t b, uint64_t e, Result &q) { judge<T>(&a[b], e - b, b, q); });
  r.merge(explore(d.size(), 4096, [&](uint64_t b, uint64_t e, Result &q) {
    for (uint64_t i = b; i < e; i++)
      for (int s = 0; s < 4; s++) {
        const T y = s & 1 ? -d[i] : d[i], x = s & 2 ? -d[i] : d[i], g = two(y, x), w = wanted2<T>(y, x);
        q.states++;
        q.transitions++;
        if (g != w) q.fail(i * 4 + s, keyOf<T>(ATAN2, y, x), textOf<T>(ATAN2, y, x, g, w));
      }
  }));
  return r;
}
template <class T> int single(const std::string &mode, int id, uint64_t u, uint64_t v) {
  const T x = fromBits<T>(u), y = fromBits<T>(v), g = one<T>(id, x, y);
  T w = g;
  if (id == ATAN2) w = wanted2<T>(x, y); else wanted<T>(id, x, w);
  if (mode == "echo") { printf("%s -> %llx\n", keyOf<T>(id, x, y).c_str(), (unsigned long long)ub(g)); return 0; }
  puts(textOf<T>(id, x, y, g, w).c_str());
  return g != w;
}
int main(int c, char **v) {
  const std::string mode = v[1];
  if (mode != "run") {
    int id = 0;
    for (int i = 0; i < ALL; i++) if (!strcmp(v[2], NAME[i])) id = i;
    const uint64_t x = strtoull(v[4], nullptr, 16), y = c > 5 ? strtoull(v[5], nullptr, 16) : x;
    return v[3][0] == 'f' ? single<float>(mode, id, x, y) : single<double>(mode, id, x, y);
  }
  // single precision: every argument of at least 2^-32, in the quick tier every 16th smaller one
  // (builds other than the first: the lattices only)
  const bool th = !strcmp(v[2], "thorough"), thin = !strcmp(v[2], "lattice");
  const uint64_t SMALL = 0x2f800000, END = 0x7f800001, LOW = th ? SMALL : SMALL / 16;
  Result r = explore(thin ? 0 : 2 * (LOW + END - SMALL), 1 << 14, [&](uint64_t b, uint64_t e, Result &q) {
    static thread_local std::vector<float> x(1 << 14);
    const float top = std::ldexp(1.f, -12);
    size_t n = 0;
    for (uint64_t i = b; i < e; i++) {
      const uint64_t k = i >> 1, u = k < LOW ? k * (th ? 1 : 16) : k - LOW + SMALL;
      const float f = fromBits<float>(u | (i & 1) << 31);
      if (std::fabs(f) <= top || std::fabs(f) == 1 || std::fabs(f) >= 6e7f) x[n++] = f;
    }
    if (n) judge<float>(x.data(), n, b, q);
  });
  r.merge(lattice<float>());
  r.merge(lattice<double>());
  for (const char *s : {"exp f 0", "sin f 80000001", "cos d 3e30000000000000", "tan d 3e40000000000000", "atan f 7f800000", "acos d bff0000000000000", "log f 3f800000",
                        "asin d 3e0123456789abcd", "atan2 d 3ff8000000000000 bff8000000000000", "sincos.cos f 39000000", "asin f bf800000", "tanh d 8000000000000000"}) {
    const std::string k = s, n = k.substr(0, k.find(' '));
    int id = 0;
    for (int i = 0; i < ALL; i++) if (n == NAME[i]) id = i;
    unsigned long long x, y;
    const size_t p = n.size() + 3;
    const int got = sscanf(k.c_str() + p, "%llx %llx", &x, &y);
    if (got < 2) y = x;
    const uint64_t g = k[p - 2] == 'f' ? ub(one<float>(id, fromBits<float>(x), fromBits<float>(y))) : ub(one<double>(id, fromBits<double>(x), fromBits<double>(y)));
    char o[40];
    snprintf(o, sizeof o, " -> %llx", (unsigned long long)g);
    r.samples.push_back(k + o);
  }
  print(r);
}
