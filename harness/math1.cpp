// Exhaustive exploration of the one-argument fast functions.
//   math1 acc  <family> <tier>     accuracy / limits against an independent reference
//   math1 symmetry <tier>              exact sign symmetry
//   math1 range <tier>             result range, domain errors, NaN propagation
//   math1 fpe  <tier>              floating point exceptions
//   math1 replay <mode> <fn> <f|d> <hexbits>
//   math1 echo <fn> <f|d> <hexbits>...     print raw result bits
// Single precision: every one of the 2^32 bit patterns.
// Double precision: a fixed lattice (see dspace) plus windows around every
// numeric literal found in the current sources (file named by MC_LITERALS).
#include "vdtMath.h"
#include "mc.hpp"
#include "mathspace.hpp"
#include "contract.hpp"
#include <cfenv>
using namespace mc;

// MC_MODE selects what is compiled in: 0 accuracy, 1 symmetry, 2 range, 3 floating
// point exceptions.  MC_PART 1 or 2 selects a part of the functions, 0 all.
#ifndef MC_MODE
#define MC_MODE 0
#endif
#ifndef MC_PART
#define MC_PART 0
#endif

#define NI __attribute__((noinline))
#define DEF(n) \
  static NI float f_##n(float x) { return vdt::fast_##n##f(x); } \
  static NI double d_##n(double x) { return vdt::fast_##n(x); }
DEF(exp) DEF(log) DEF(sin) DEF(cos) DEF(tan) DEF(tanh) DEF(asin) DEF(acos) DEF(atan)
DEF(isqrt) DEF(inv) DEF(approx_isqrt) DEF(approx_inv)
static NI float f_sc_sin(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
static NI float f_sc_cos(float x) { float s, c; vdt::fast_sincosf(x, s, c); return c; }
static NI double d_sc_sin(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
static NI double d_sc_cos(double x) { double s, c; vdt::fast_sincos(x, s, c); return c; }

struct Fn {
  const char *name;
  float (*f)(float);
  double (*d)(double);
  double (*rf)(double);
  LD (*rd)(LD);
};
#define REF(n, F) [](double x) -> double { return F(x); }, [](LD x) -> LD { return F##l(x); }
static const Fn FN[NFN] = {
    {"exp", f_exp, d_exp, REF(exp, exp)},       {"log", f_log, d_log, REF(log, log)},
    {"sin", f_sin, d_sin, REF(sin, sin)},       {"cos", f_cos, d_cos, REF(cos, cos)},
    {"tan", f_tan, d_tan, REF(tan, tan)},       {"tanh", f_tanh, d_tanh, REF(tanh, tanh)},
    {"asin", f_asin, d_asin, REF(asin, asin)},  {"acos", f_acos, d_acos, REF(acos, acos)},
    {"atan", f_atan, d_atan, REF(atan, atan)},
    {"isqrt", f_isqrt, d_isqrt, [](double x) -> double { return 1 / sqrt(x); }, [](LD x) -> LD { return 1 / sqrtl(x); }},
    {"inv", f_inv, d_inv, [](double x) -> double { return 1 / x; }, [](LD x) -> LD { return 1 / x; }},
    {"approx_isqrt", f_approx_isqrt, d_approx_isqrt, [](double x) -> double { return 1 / sqrt(x); }, [](LD x) -> LD { return 1 / sqrtl(x); }},
    {"approx_inv", f_approx_inv, d_approx_inv, [](double x) -> double { return 1 / x; }, [](LD x) -> LD { return 1 / x; }},
    {"sincos.sin", f_sc_sin, d_sc_sin, REF(sin, sin)},
    {"sincos.cos", f_sc_cos, d_sc_cos, REF(cos, cos)},
};
static const std::map<std::string, std::vector<int>> FAMILY = {
    {"exp", {EXP}}, {"log", {LOG}}, {"sincos", {SIN}}, {"tan", {TAN}}, {"tanh", {TANH}},
    {"arcsin", {ASIN, ACOS}}, {"atan", {ATAN}}, {"isqrt", {ISQRT, AISQRT}}, {"inv", {INV, AINV}}};

template <class T> inline T call(int id, T x);
template <> inline float call<float>(int id, float x) { return FN[id].f(x); }
template <> inline double call<double>(int id, double x) { return FN[id].d(x); }
template <class T> inline typename U<T>::ref refv(int id, T x);
template <> inline double refv<float>(int id, float x) { return FN[id].rf((double)x); }
template <> inline LD refv<double>(int id, double x) { return FN[id].rd((LD)x); }

// chunk starts from which a sample is reported
static bool pick(uint64_t b, uint64_t n) { uint64_t step = ((n >> 16) / 5 + 1); return (b >> 16) % step == step / 2; }

template <class T> std::string keyOf(const char *mode, int id, T x) {
  char b[96];
  snprintf(b, sizeof b, "%s %s %s %llx", mode, FN[id].name, tn<T>(), (unsigned long long)ub(x));
  return b;
}

// "fn f|d xbits -> ybits", re-evaluated by the driver with another binary
template <class T> std::string traceOf(int id, T x) {
  char b[128];
  snprintf(b, sizeof b, "%s %s %llx -> %llx", FN[id].name, tn<T>(), (unsigned long long)ub(x), (unsigned long long)ub(call<T>(id, x)));
  return b;
}

template <class T> std::string textAcc(int id, T x) {
  T g = call<T>(id, x);
  char b[256];
  snprintf(b, sizeof b, "%s(%s) %s precision: got %s, reference %.21Lg", FN[id].name, hexf(x).c_str(), sizeof(T) == 4 ? "single" : "double", hexf(g).c_str(), (LD)refv<T>(id, x));
  return b;
}

static NI void callSinCos(float x, float &s, float &c) { vdt::fast_sincosf(x, s, c); }
static NI void callSinCos(double x, double &s, double &c) { vdt::fast_sincos(x, s, c); }
static void refSinCos(float x, double &s, double &c) { sincos((double)x, &s, &c); }
static void refSinCos(double x, LD &s, LD &c) { sincosl((LD)x, &s, &c); }

template <class T> Result accuracy(int id, bool thorough) {
  Space<T> sp(id, thorough);
  const uint64_t n = sp.size();
  return explore(n, 1 << 16, [&](uint64_t b, uint64_t e, Result &r) {
    double w = -1; T wx = 0; uint64_t cov = 0;
    if (id == SIN) {
      // sine, cosine and the combined function in one pass; the combined one
      // must return exactly the separate results
      for (uint64_t i = b; i < e; i++) {
        const T x = sp.at(i);
        if (!claimed<T>(id, x)) continue;
        typename U<T>::ref rs, rc;
        refSinCos(x, rs, rc);
        const T g = call<T>(SIN, x), h = call<T>(COS, x);
        const J j = judge<T>(SIN, x, g, rs), k = judge<T>(COS, x, h, rc);
        cov += 3;
        if (!j.ok) r.fail(i, keyOf<T>("acc", SIN, x), textAcc<T>(SIN, x));
        if (!k.ok) r.fail(i, keyOf<T>("acc", COS, x), textAcc<T>(COS, x));
        T s2, c2;
        callSinCos(x, s2, c2);
        if (!same(s2, g)) r.fail(i, keyOf<T>("acc", SCSIN, x), textAcc<T>(SCSIN, x) + " differs from the separate function");
        if (!same(c2, h)) r.fail(i, keyOf<T>("acc", SCCOS, x), textAcc<T>(SCCOS, x) + " differs from the separate function");
        const double m = std::max(j.m, k.m);
        if (m > w) { w = m; wx = x; }
      }
    } else
      for (uint64_t i = b; i < e; i++) {
        const T x = sp.at(i);
        if (!claimed<T>(id, x)) continue;
        const T g = call<T>(id, x);
        const J j = judge<T>(id, x, g, refv<T>(id, x));
        if (j.ok == 2) continue;
        cov++;
        if (!j.ok) r.fail(i, keyOf<T>("acc", id, x), textAcc<T>(id, x));
        if (j.m > w) { w = j.m; wx = x; }
      }
    r.states += e - b;
    r.transitions += cov;
    r.counts[std::string(FN[id].name) + tn<T>() + ".in_contract"] += cov;
    if (w >= 0) {
      std::string k = std::string(FN[id].name) + tn<T>();
      auto it = r.worst.find(k);
      if (it == r.worst.end() || w > it->second.first) r.worst[k] = {w, traceOf<T>(id, wx)};
    }
    if (pick(b, n) && cov) { T x = sp.at(b + (e - b) / 2); r.samples.push_back(traceOf<T>(id, x)); }
  });
}

// The same functions inlined, so that the compiler may vectorise the sweep the
// way it does in user code.
template <int ID> struct Op;
#define OP(ID, n) \
  template <> struct Op<ID> { \
    static inline float f(float x) { return vdt::fast_##n##f(x); } \
    static inline double f(double x) { return vdt::fast_##n(x); } \
  };
OP(EXP, exp) OP(LOG, log) OP(SIN, sin) OP(COS, cos) OP(TAN, tan) OP(TANH, tanh) OP(ASIN, asin) OP(ACOS, acos) OP(ATAN, atan)
OP(ISQRT, isqrt) OP(INV, inv) OP(AISQRT, approx_isqrt) OP(AINV, approx_inv)
template <> struct Op<SCSIN> {
  static inline float f(float x) { float s, c; vdt::fast_sincosf(x, s, c); return s; }
  static inline double f(double x) { double s, c; vdt::fast_sincos(x, s, c); return s; }
};
const uint64_t BLK = 1024;
template <int ID, class T> NI void evalBlock(const T *__restrict__ x, T *__restrict__ y, size_t n) {
  for (size_t i = 0; i < n; i++) y[i] = Op<ID>::f(x[i]);
}

// --- symmetry ---------------------------------------------------------------
template <class T> bool symOk(int id, T x) {
  T a = call<T>(id, x), b = call<T>(id, -x);
  if (id == COS) return same(a, b);
  return same(a, (T)-b);
}
template <class T> inline bool symDomain(int id, T x) {
  if (x == 0 || !std::isfinite(x)) return false;
  if (id == SIN || id == COS || id == TAN || id == SCSIN) return std::fabs(x) <= (T)C<T>::trigDom;
  return true;
}
template <int ID, class T> Result symmetry(bool thorough) {
  Space<T> sp(ID, thorough);
  return explore(sizeof(T) == 4 ? 1ull << 31 : sp.size(), 1 << 16, [&](uint64_t b, uint64_t e, Result &r) {
    uint64_t cov = 0;
    std::vector<T> xs(BLK), ns(BLK), ys(BLK), zs(BLK);
    for (uint64_t q = b; q < e; q += BLK) {
      size_t k = 0;
      for (uint64_t i = q; i < std::min(e, q + BLK); i++) { const T x = sp.at(i); if (symDomain<T>(ID, x)) { xs[k] = x; ns[k++] = -x; } }
      evalBlock<ID, T>(xs.data(), ys.data(), k);
      evalBlock<ID, T>(ns.data(), zs.data(), k);
      cov += k;
      for (size_t i = 0; i < k; i++)
        if (ID == COS ? !same(ys[i], zs[i]) : !same(ys[i], (T)-zs[i]))
          r.fail(q + i, keyOf<T>("sym", ID, xs[i]), std::string(FN[ID].name) + " not symmetric at " + hexf(xs[i]) + ": " + hexf(ys[i]) + " vs " + hexf(zs[i]));
    }
    r.states += e - b;
    r.transitions += 2 * cov;
    r.counts[std::string(FN[ID].name) + tn<T>() + ".pairs"] += cov;
    if (pick(b, sp.size()) && cov) { T x = sp.at(b + (e - b) / 2); r.samples.push_back(traceOf<T>(ID, x)); r.samples.push_back(traceOf<T>(ID, -x)); }
  });
}

// --- range, domain errors, NaN ----------------------------------------------
template <class T> int rangeOk(int id, T x, T g) {  // 1 ok 0 bad 2 no claim
  const T MINN = std::numeric_limits<T>::min(), MAXN = std::numeric_limits<T>::max();
  if (x != x) return g != g;
  const T PIO2 = sizeof(T) == 4 ? (T)1.57079637f : (T)1.5707963267948966, PI = sizeof(T) == 4 ? (T)3.14159274f : (T)3.141592653589793;
  switch (id) {
    case EXP: return g >= 0;
    case LOG: if (x < 0) return g != g; if (x < MINN) return 2; return g == g && (x >= 1 ? g >= 0 : g < 0);
    case SIN: case COS: case SCSIN: case SCCOS: if (!(std::fabs(x) <= (T)C<T>::trigDom)) return 2; return std::fabs(g) <= 1;
    case TAN: if (!(std::fabs(x) <= (T)C<T>::trigDom)) return 2; return std::isfinite(g);
    case TANH: return std::fabs(g) <= 1 && (x == 0 ? g == 0 : (g > 0) == (x > 0) || std::fabs(x) < 4 * MINN);
    case ASIN: if (std::fabs(x) > 1) return g != g; return std::fabs(g) <= PIO2 && (x == 0 ? g == 0 : (g > 0) == (x > 0));
    case ACOS: if (std::fabs(x) > 1) return g != g; return g >= 0 && g <= PI;
    case ATAN: return std::fabs(g) <= PIO2 && (x == 0 ? g == 0 : (g > 0) == (x > 0));
    case ISQRT: case AISQRT: if (!(x >= MINN && x <= MAXN)) return 2; return g > 0 && g <= MAXN;
    case INV: case AINV: if (!(std::fabs(x) >= MINN && std::fabs(x) <= (T)C<T>::invHi)) return 2; return std::isfinite(g) && (g > 0) == (x > 0) && g != 0;
  }
  return 2;
}
template <int ID, class T> Result range(bool thorough) {
  Space<T> sp(ID, thorough);
  return explore(sp.size(), 1 << 16, [&](uint64_t b, uint64_t e, Result &r) {
    uint64_t cov = 0;
    std::vector<T> xs(BLK), ys(BLK);
    for (uint64_t q = b; q < e; q += BLK) {
      size_t k = std::min(e, q + BLK) - q;
      for (size_t i = 0; i < k; i++) xs[i] = sp.at(q + i);
      evalBlock<ID, T>(xs.data(), ys.data(), k);
      for (size_t i = 0; i < k; i++) {
        int v = rangeOk<T>(ID, xs[i], ys[i]);
        if (v == 2) continue;
        cov++;
        if (!v) r.fail(q + i, keyOf<T>("range", ID, xs[i]), std::string(FN[ID].name) + "(" + hexf(xs[i]) + ") = " + hexf(ys[i]) + " outside the permitted results");
      }
    }
    r.states += e - b;
    r.transitions += cov;
    r.counts[std::string(FN[ID].name) + tn<T>() + ".claimed"] += cov;
    if (pick(b, sp.size()) && cov) { T x = sp.at(b + (e - b) / 2); r.samples.push_back(traceOf<T>(ID, x)); }
  });
}

// --- floating point exceptions ----------------------------------------------
static inline unsigned flags() { return __builtin_ia32_stmxcsr(); }
static inline void clearFlags() { __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() & ~0x3fu); }
enum { FI = 1, FZ = 4, FO = 8 };
template <class T> unsigned fpeOf(int id, T x) {
  clearFlags();
  volatile T g = call<T>(id, x);
  (void)g;
  return flags() & (FI | FZ | FO);
}
template <int ID, class T> Result fpe(bool thorough) {
  Space<T> sp(ID, thorough);
  return explore(sp.size(), 1 << 16, [&](uint64_t b, uint64_t e, Result &r) {
    uint64_t cov = 0;
    std::vector<T> xs(BLK), ys(BLK);
    for (uint64_t q = b; q < e; q += BLK) {
      // the status flags are sticky: one look per block, the block is split up only if one is set
      size_t k = 0;
      for (uint64_t i = q; i < std::min(e, q + BLK); i++) { const T x = sp.at(i); if (fpeDomain<T>(ID, x)) xs[k++] = x; }
      clearFlags();
      evalBlock<ID, T>(xs.data(), ys.data(), k);
      cov += k;
      if (!(flags() & (FI | FZ | FO))) continue;
      bool any = false;
      for (size_t i = 0; i < k; i++) {
        unsigned f = fpeOf<T>(ID, xs[i]);
        const T x = xs[i];
        if (f) { any = true; r.fail(q + i, keyOf<T>("fpe", ID, x), std::string(FN[ID].name) + "(" + hexf(x) + ") = " + hexf(ys[i]) + " raised" + (f & FI ? " invalid" : "") + (f & FZ ? " divide-by-zero" : "") + (f & FO ? " overflow" : "")); }
      }
      if (!any) r.counts["block_only_flags"]++;
    }
    r.states += e - b;
    r.transitions += cov;
    r.counts[std::string(FN[ID].name) + tn<T>() + ".in_domain"] += cov;
    if (pick(b, sp.size()) && cov) { T x = sp.at(b + (e - b) / 2); r.samples.push_back(traceOf<T>(ID, x)); }
  });
}

// Evaluation through the vectorisable loop with every element equal to x.
template <class T> struct Blocked { static T (*f[NFN])(T); };
template <class T> T (*Blocked<T>::f[NFN])(T);
template <int ID, class T> T blocked(T x) {
  std::vector<T> xs(BLK, x), ys(BLK);
  evalBlock<ID, T>(xs.data(), ys.data(), BLK);
  return ys[BLK / 2];
}

template <class T> int replay(const std::string &mode, int id, uint64_t u) {
  T x = fromBits<T>(u);
  bool bad = false;
  if (mode == "acc") {
    T g = call<T>(id, x);
    J j = judge<T>(id, x, g, refv<T>(id, x));
    bad = !j.ok;
    if (id == SCSIN || id == SCCOS) bad = bad || !same(g, call<T>(id == SCSIN ? SIN : COS, x));
    printf("%s\n", textAcc<T>(id, x).c_str());
  } else if (mode == "sym") {
    bad = !symOk<T>(id, x);
    if (Blocked<T>::f[id]) bad = bad || (id == COS ? !same(Blocked<T>::f[id](x), Blocked<T>::f[id](-x)) : !same(Blocked<T>::f[id](x), (T)-Blocked<T>::f[id](-x)));
    printf("f(x)=%s f(-x)=%s\n", hexf(call<T>(id, x)).c_str(), hexf(call<T>(id, -x)).c_str());
  } else if (mode == "range") {
    bad = !rangeOk<T>(id, x, call<T>(id, x));
    if (Blocked<T>::f[id]) bad = bad || !rangeOk<T>(id, x, Blocked<T>::f[id](x));
    printf("%s -> %s\n", hexf(x).c_str(), hexf(call<T>(id, x)).c_str());
  } else if (mode == "fpe") {
    unsigned f = fpeOf<T>(id, x);
    bad = f;
    printf("flags %x\n", f);
  }
  puts(bad ? "VIOLATED" : "HELD");
  return bad;
}

#if MC_MODE == 1
#define LIST1(M) M(SIN) M(COS) M(TAN) M(TANH)
#define LIST2(M) M(ASIN) M(ATAN) M(INV) M(AINV) M(SCSIN)
#elif MC_MODE == 2
#define LIST1(M) M(EXP) M(LOG) M(SIN) M(COS) M(TAN) M(TANH)
#define LIST2(M) M(ASIN) M(ACOS) M(ATAN) M(ISQRT) M(INV) M(AISQRT) M(AINV)
#elif MC_MODE == 3
#define LIST1(M) M(EXP) M(LOG) M(SIN) M(COS) M(TAN) M(TANH) M(SCSIN)
#define LIST2(M) M(ASIN) M(ACOS) M(ATAN) M(ISQRT) M(INV) M(AISQRT) M(AINV)
#else
#define LIST1(M)
#define LIST2(M)
#endif
#if MC_PART == 1
#define LIST(M) LIST1(M)
#elif MC_PART == 2
#define LIST(M) LIST2(M)
#else
#define LIST(M) LIST1(M) LIST2(M)
#endif
// the combined sincos is explored only in the thorough tier: the accuracy check
// establishes that it returns exactly the values of sin and cos
#define SYM(ID) if (th || ID != SCSIN) { all.merge(symmetry<ID, float>(th)); all.merge(symmetry<ID, double>(th)); }
#define RNG(ID) all.merge(range<ID, float>(th)); all.merge(range<ID, double>(th));
#define FPE(ID) if (th || ID != SCSIN) { all.merge(fpe<ID, float>(th)); all.merge(fpe<ID, double>(th)); }
#define REG(ID) Blocked<float>::f[ID] = blocked<ID, float>; Blocked<double>::f[ID] = blocked<ID, double>;

int main(int c, char **v) {
  LIST(REG)
  std::string mode = c > 1 ? v[1] : "";
  auto idOf = [](const char *n) { for (int i = 0; i < NFN; i++) if (!strcmp(n, FN[i].name)) return i; exit(2); };
  if (mode == "replay") {
    int id = idOf(v[3]);
    uint64_t u = strtoull(v[5], nullptr, 16);
    return v[4][0] == 'f' ? replay<float>(v[2], id, u) : replay<double>(v[2], id, u);
  }
  if (mode == "echo") {
    for (int i = 4; i < c; i++) {
      uint64_t u = strtoull(v[i], nullptr, 16);
      if (v[3][0] == 'f') printf("%08" PRIx32 "\n", ub(call<float>(idOf(v[2]), fromBits<float>(u))));
      else printf("%016" PRIx64 "\n", ub(call<double>(idOf(v[2]), fromBits<double>(u))));
    }
    return 0;
  }
  Result all;
  if (mode == "acc") {
    bool th = !strcmp(v[3], "thorough");
    for (int id : FAMILY.at(v[2])) { all.merge(accuracy<float>(id, th)); all.merge(accuracy<double>(id, th)); }
  } else {
    bool th = !strcmp(v[2], "thorough");
    (void)th;
#if MC_MODE == 1
    LIST(SYM)
#elif MC_MODE == 2
    LIST(RNG)
#elif MC_MODE == 3
    LIST(FPE)
#endif
    if (all.states == 0) return 2;
  }
  print(all);
  return 0;
}
