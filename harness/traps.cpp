// Exceptions of single calls in a build at another optimisation level.
//   traps run [thorough]               exploration (JSON)
// With MC_UNDEF and the undefined behaviour instrumentation: undefined operations instead.
//   traps replay <fn> <f|d> <hex> [<hex>]
#include "vdtMath.h"
#include "contract.hpp"
#include "lattice.hpp"

template <int ID> struct Op;
#define OP(ID, n) \
  template <> struct Op<ID> { \
    static inline float f(float x) { return vdt::fast_##n##f(x); } \
    static inline double f(double x) { return vdt::fast_##n(x); } \
  };
OP(EXP, exp) OP(LOG, log) OP(SIN, sin) OP(COS, cos) OP(TAN, tan) OP(TANH, tanh) OP(ASIN, asin) OP(ACOS, acos) OP(ATAN, atan)
OP(ISQRT, isqrt) OP(INV, inv) OP(AISQRT, approx_isqrt) OP(AINV, approx_inv)
template <> struct Op<SCSIN> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
};
template <> struct Op<SCCOS> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return c; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return c; }
};
enum { ATAN2 = NFN, ALL };
#define LIST(M) M(EXP) M(LOG) M(SIN) M(COS) M(TAN) M(TANH) M(ASIN) M(ACOS) M(ATAN) M(ISQRT) M(INV) M(AISQRT) M(AINV) M(SCSIN) M(SCCOS)
static const char *NAME[ALL] = {"exp", "log", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "inv", "approx_isqrt", "approx_inv", "sincos.sin", "sincos.cos", "atan2"};

#ifdef MC_UNDEF   // built with the undefined behaviour instrumentation: its reports are counted
static thread_local volatile unsigned HITS = 0;   // the compiler takes the handlers for leaves
static thread_local const char *volatile WHAT = "";
#define H(n) extern "C" void __ubsan_handle_##n() { HITS = HITS + 1; WHAT = #n; }
H(type_mismatch_v1) H(alignment_assumption) H(add_overflow) H(sub_overflow) H(mul_overflow) H(negate_overflow) H(divrem_overflow)
H(shift_out_of_bounds) H(out_of_bounds) H(builtin_unreachable) H(missing_return) H(vla_bound_not_positive) H(float_cast_overflow)
H(load_invalid_value) H(invalid_builtin) H(function_type_mismatch_v1) H(nonnull_return_v1) H(nonnull_arg) H(nullability_arg)
H(pointer_overflow) H(dynamic_type_cache_miss)
static inline void clearFlags() { HITS = 0; }
static inline unsigned flags() { return HITS; }
#else
static inline void clearFlags() { __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() & ~0x3fu); }
static inline unsigned flags() { return __builtin_ia32_stmxcsr() & (1 | 4 | 8); }
#endif
template <class T> T one(int id, T x) {
#define CASE(ID) if (id == ID) return Op<ID>::f(x);
  LIST(CASE)
  return 0;
}
static float two(float y, float x) { return vdt::fast_atan2f(y, x); }
static double two(double y, double x) { return vdt::fast_atan2(y, x); }
template <class T> unsigned raised(int id, T x, T y) {
  volatile T a = x, b = y, g;
  clearFlags();
  if (id == ATAN2) g = two(a, b); else g = one<T>(id, a);
  (void)g;
  return flags();
}
template <class T> std::string keyOf(int id, T x, T y) {
  char b[96];
  snprintf(b, sizeof b, "%s %s %llx", NAME[id], tn<T>(), (unsigned long long)ub(x));
  std::string s = b;
  if (id == ATAN2) { snprintf(b, sizeof b, " %llx", (unsigned long long)ub(y)); s += b; }
  return s;
}
template <class T> std::string textOf(int id, T x, T y, unsigned f) {
  const std::string c = std::string(NAME[id]) + "(" + hexf(x) + (id == ATAN2 ? ", " + hexf(y) : "") + ")";
#ifdef MC_UNDEF
  return c + (f ? " executes an undefined operation: " + std::string(WHAT) : " has no undefined operation");
#endif
  return c + " raised" + (f & 1 ? " invalid" : "") + (f & 4 ? " divide-by-zero" : "") + (f & 8 ? " overflow" : "");
}
static bool THOROUGH = false;
template <class T> Result all() {
  const std::vector<T> a = args<T>();
  std::vector<T> p;   // for pairs
  for (size_t i = 0; i < a.size(); i += a.size() / 700) if (std::isfinite(a[i])) p.push_back(a[i]);
  for (T v : {T(0), -T(0), T(1), T(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()}) p.push_back(v);
  Result r = explore(ALL, 1, [&](uint64_t id, uint64_t, Result &q) {
    if (id == ATAN2) return;
    for (size_t i = 0; i < a.size(); i++) {
      if (!fpeDomain<T>(id, a[i])) continue;
      q.states++;
      q.transitions++;
      if (unsigned f = raised<T>(id, a[i], a[i])) q.fail(i, keyOf<T>(id, a[i], a[i]), textOf<T>(id, a[i], a[i], f));
    }
  });
#ifdef MC_UNDEF
  if (sizeof(T) == 4) {   // all single precision patterns, in the quick tier every 64th
    const uint64_t step = THOROUGH ? 1 : 64;
    r.merge(explore((1ull << 32) / step, 1 << 16, [&](uint64_t b, uint64_t e, Result &q) {
      for (uint64_t i = b; i < e; i++)
        for (int id = 0; id < NFN; id++) {
          const T x = fromBits<T>(i * step);
          if (!fpeDomain<T>(id, x)) continue;
          q.states++;
          q.transitions++;
          if (unsigned f = raised<T>(id, x, x)) q.fail(i, keyOf<T>(id, x, x), textOf<T>(id, x, x, f));
        }
    }));
  }
#endif
  r.merge(explore(p.size(), 16, [&](uint64_t b, uint64_t e, Result &q) {
    for (uint64_t i = b; i < e; i++)
      for (size_t j = 0; j < p.size(); j++) {
        q.states++;
        q.transitions++;
        if (unsigned f = raised<T>(ATAN2, p[i], p[j])) q.fail(i * p.size() + j, keyOf<T>(ATAN2, p[i], p[j]), textOf<T>(ATAN2, p[i], p[j], f));
      }
  }));
  return r;
}
template <class T> int replay(int id, T x, T y) {
  const unsigned f = raised<T>(id, x, y);
  puts(textOf<T>(id, x, y, f).c_str());
  return f != 0;
}
int main(int c, char **v) {
  if (!strcmp(v[1], "replay")) {
    int id = 0;
    for (int i = 0; i < ALL; i++) if (!strcmp(v[2], NAME[i])) id = i;
    const uint64_t x = strtoull(v[4], nullptr, 16), y = c > 5 ? strtoull(v[5], nullptr, 16) : x;
    return v[3][0] == 'f' ? replay<float>(id, fromBits<float>(x), fromBits<float>(y)) : replay<double>(id, fromBits<double>(x), fromBits<double>(y));
  }
  THOROUGH = c > 2 && !strcmp(v[2], "thorough");
  Result r = all<float>();
  r.merge(all<double>());
  print(r);
}
