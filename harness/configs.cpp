// Evaluates every function on a fixed lattice, for comparison across builds.
//   configs dump <file>    result bits, NaNs canonical, one record per evaluation
//   configs judge          accuracy contract on the same lattice (JSON)
//   configs at <index>     describe record <index>
//   configs replay <index> <hexbits>   exit 1 if the result now differs from <hexbits>
//   configs judgeat <index>            exit 1 if the accuracy contract is violated
#include "vdtMath.h"
#include "contract.hpp"
#include "lattice.hpp"
#define NI __attribute__((noinline))

// one-argument functions: scalar calls and the array function
#define FNS(M) M(exp, EXP) M(log, LOG) M(sin, SIN) M(cos, COS) M(tan, TAN) M(tanh, TANH) M(asin, ASIN) M(acos, ACOS) M(atan, ATAN) M(isqrt, ISQRT) M(inv, INV) M(approx_isqrt, AISQRT) M(approx_inv, AINV)
#define DEF(n, i) static NI double s_##n(double x) { return vdt::fast_##n(x); } static NI float s_##n(float x) { return vdt::fast_##n##f(x); }
FNS(DEF)
static NI double s_sc(double x, bool c) { double a, b; vdt::fast_sincos(x, a, b); return c ? b : a; }
static NI float s_sc(float x, bool c) { float a, b; vdt::fast_sincosf(x, a, b); return c ? b : a; }
static NI double s_at2(double y, double x) { return vdt::fast_atan2(y, x); }
static NI float s_at2(float y, float x) { return vdt::fast_atan2f(y, x); }

template <class T> struct Fn { const char *name; T (*s)(T); void (*v)(uint32_t, T const *, T *); int id; };
template <class T> std::vector<Fn<T>> fns();
#define ED(n, i) {#n, (double (*)(double))s_##n, vdt::fast_##n##v, i},
#define EF(n, i) {#n, (float (*)(float))s_##n, vdt::fast_##n##fv, i},
template <> std::vector<Fn<double>> fns<double>() { return {FNS(ED)}; }
template <> std::vector<Fn<float>> fns<float>() { return {FNS(EF)}; }

struct Rec { std::string what; int id; bool flt; uint64_t x; };
template <class T> uint64_t canon(T x) { return x != x ? 0x7ff8000000000000ull : (uint64_t)ub(x); }

template <class T, class Emit> void all(Emit emit) {
  const std::vector<T> a = args<T>();
  std::vector<T> o(a.size()), b(a.size());
  auto rec = [&](const std::string &n, int id, size_t i, T r) { emit([&] { return Rec{n + " " + tn<T>() + " " + hexf(a[i]), id, sizeof(T) == 4, (uint64_t)ub(a[i])}; }, r); };
  for (const auto &f : fns<T>()) {
    for (size_t i = 0; i < a.size(); i++) rec(f.name, f.id, i, f.s(a[i]));
    f.v((uint32_t)a.size(), a.data(), o.data());
    for (size_t i = 0; i < a.size(); i++) rec(std::string(f.name) + " (array)", f.id, i, o[i]);
  }
  for (int c = 0; c < 2; c++) for (size_t i = 0; i < a.size(); i++) rec(c ? "sincos.cos" : "sincos.sin", c ? SCCOS : SCSIN, i, s_sc(a[i], c));
  for (size_t sh : {(size_t)1, (size_t)97, (size_t)5003}) {
    for (size_t i = 0; i < a.size(); i++) b[i] = a[(i + sh) % a.size()];
    for (size_t i = 0; i < a.size(); i++) rec("atan2 (shift " + std::to_string(sh) + ")", -1, i, s_at2(a[i], b[i]));
    if (sizeof(T) == 4) vdt::fast_atan2fv((uint32_t)a.size(), (const float *)a.data(), (const float *)b.data(), (float *)o.data());
    else vdt::fast_atan2v((uint32_t)a.size(), (const double *)a.data(), (const double *)b.data(), (double *)o.data());
    for (size_t i = 0; i < a.size(); i++) rec("atan2 (array, shift " + std::to_string(sh) + ")", -1, i, o[i]);
  }
}
template <class E> void everything(E e) { all<float>(e); all<double>(e); }

static double ref(int id, double x) {
  switch (id) { case EXP: return exp(x); case LOG: return log(x); case SIN: case SCSIN: return sin(x); case COS: case SCCOS: return cos(x); case TAN: return tan(x); case TANH: return tanh(x);
    case ASIN: return asin(x); case ACOS: return acos(x); case ATAN: return atan(x); case ISQRT: case AISQRT: return 1 / sqrt(x); } return 1 / x; }
static LD ref(int id, LD x) {
  switch (id) { case EXP: return expl(x); case LOG: return logl(x); case SIN: case SCSIN: return sinl(x); case COS: case SCCOS: return cosl(x); case TAN: return tanl(x); case TANH: return tanhl(x);
    case ASIN: return asinl(x); case ACOS: return acosl(x); case ATAN: return atanl(x); case ISQRT: case AISQRT: return 1 / sqrtl(x); } return 1 / x; }
template <class T> int judgeOne(int id, T x, T g) {
  if (id < 0 || !claimed<T>(id, x)) return 2;
  return judge<T>(id, x, g, ref(id, (typename U<T>::ref)x)).ok;
}

struct Emitter {
  uint64_t n = 0;
  std::string mode; FILE *f = nullptr; uint64_t target = 0, want = 0; Result r; int code = 0;
  template <class D, class T> void operator()(D d, T g) {
    const uint64_t i = n++;
    if (f) { uint64_t c = canon(g); fwrite(&c, 8, 1, f); return; }
    if (mode == "judge") {
      Rec q = d();
      int v = judgeOne<T>(q.id, fromBits<T>(q.x), g);
      r.states++;
      if (v != 2) r.transitions++;
      if (!v) r.fail(i, std::to_string(i), q.what + " = " + hexf(g) + " violates the accuracy bounds");
      return;
    }
    if (i != target) return;
    Rec q = d();
    if (mode == "at") printf("%s = %s\n", q.what.c_str(), hexf(g).c_str());
    if (mode == "replay") { code = canon(g) != want; printf("%s = %s\n", q.what.c_str(), hexf(g).c_str()); }
    if (mode == "judgeat") { code = judgeOne<T>(q.id, fromBits<T>(q.x), g) == 0; printf("%s = %s\n", q.what.c_str(), hexf(g).c_str()); }
  }
};

static Emitter emitter;
struct Fwd { template <class D, class T> void operator()(D d, T g) { emitter(d, g); } };

int main(int c, char **v) {
  Emitter &e = emitter;
  e.mode = v[1];
  if (e.mode == "dump") { e.f = fopen(v[2], "wb"); if (!e.f) return 2; }
  else if (c > 2) e.target = strtoull(v[2], nullptr, 10);
  if (c > 3) e.want = strtoull(v[3], nullptr, 16);
  everything(Fwd());
  if (e.f) { fclose(e.f); printf("%llu\n", (unsigned long long)e.n); return 0; }
  if (e.mode == "judge") { print(e.r); return 0; }
  return e.code;
}
