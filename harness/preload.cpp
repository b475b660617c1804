// Compares the replacement symbols of a preload build with the fast functions.
//   preload run <mode> <lib> [full]      mode: dl (symbols looked up in <lib>) or pl (<lib> is in LD_PRELOAD)
//   preload replay <mode> <lib> <symbol> <hex> [<hex2>]
#include "vdtMath.h"
#include "lattice.hpp"
#include <dlfcn.h>
#include <math.h>
using namespace mc;
#define NI __attribute__((noinline))

// the fast functions, and the application's own calls (built with -fno-builtin)
#define F1(M) M(asin) M(acos) M(atan) M(cos) M(exp) M(log) M(sin) M(tan) M(tanh)
#define DEF(n)                                                                                             \
  static NI double ref_##n(double x) { return vdt::fast_##n(x); }                                          \
  static NI float ref_##n(float x) { return vdt::fast_##n##f(x); }                                         \
  static NI double app_##n(double x) { return ::n(x); }                                                    \
  static NI float app_##n(float x) { return ::n##f(x); }
F1(DEF)
static NI double ref_atan2(double y, double x) { return vdt::fast_atan2(y, x); }
static NI float ref_atan2(float y, float x) { return vdt::fast_atan2f(y, x); }
static NI double app_atan2(double y, double x) { return ::atan2(y, x); }
static NI float app_atan2(float y, float x) { return ::atan2f(y, x); }

template <class T> struct Sym { std::string name, mangled; T (*ref)(T); T (*app)(T); T (*ref2)(T, T); T (*app2)(T, T); };
typedef double (*D1)(double); typedef float (*S1)(float); typedef double (*D2)(double, double); typedef float (*S2)(float, float);
template <class T> std::vector<Sym<T>> syms();
#define ED(n) {#n, "", (D1)ref_##n, (D1)app_##n, nullptr, nullptr},
#define EF(n) {#n "f", "_Z" + std::to_string(strlen(#n)) + #n "f", (S1)ref_##n, (S1)app_##n, nullptr, nullptr},
template <> std::vector<Sym<double>> syms<double>() { return {F1(ED) {"atan2", "", nullptr, nullptr, (D2)ref_atan2, (D2)app_atan2}}; }
template <> std::vector<Sym<float>> syms<float>() { return {F1(EF) {"atan2f", "_Z5atan2ff", nullptr, nullptr, (S2)ref_atan2, (S2)app_atan2}}; }

static Result R;
template <class T> void one(const std::string &mode, void *h, const char *lib, bool full, const char *only, uint64_t hx, uint64_t hy) {
  for (auto &s : syms<T>())
    for (const std::string &n : {s.name, s.mangled}) {
      if (n.empty() || (mode == "pl" && n != s.name) || (only && n != only)) continue;
      void *p = mode == "dl" ? dlsym(h, n.c_str()) : nullptr;
      if (mode == "dl") {
        // dlsym may find the C library's function; it must come from this library
        Dl_info di;
        if (p && (!dladdr(p, &di) || std::string(di.dli_fname).find("libvdt") == std::string::npos)) p = nullptr;
        if (!p) { R.states++; R.fail(0, mode + " " + lib + " " + n + " 0", n + " is not replaced by the library"); continue; }
      }
      T (*f1)(T) = mode == "dl" ? (T(*)(T))p : s.app;
      T (*f2)(T, T) = mode == "dl" ? (T(*)(T, T))p : s.app2;
      auto bad = [&](uint64_t i, T x, T y, T g, T w) {
        char b[64];
        snprintf(b, sizeof b, " %llx %llx", (unsigned long long)ub(x), (unsigned long long)ub(y));
        R.fail(i, mode + " " + lib + " " + n + b, n + "(" + hexf(x) + (s.ref2 ? ", " + hexf(y) : "") + ") = " + hexf(g) + ", fast function gives " + hexf(w));
      };
      if (only) {
        T x = fromBits<T>(hx), y = fromBits<T>(hy);
        T g = s.ref ? f1(x) : f2(x, y), w = s.ref ? s.ref(x) : s.ref2(x, y);
        R.states++;
        if (!same(g, w)) bad(0, x, y, g, w);
        printf("%s: %s, fast function %s\n", n.c_str(), hexf(g).c_str(), hexf(w).c_str());
        continue;
      }
      const auto a = args<T>();
      if (s.ref) {
        for (size_t i = 0; i < a.size(); i++) {
          T g = f1(a[i]), w = s.ref(a[i]);
          R.states++; R.transitions += 2;
          if (!same(g, w)) bad(i, a[i], 0, g, w);
        }
        if (full && sizeof(T) == 4) {
          std::mutex m;
          Result q = explore(1ull << 32, 1 << 20, [&](uint64_t b, uint64_t e, Result &r) {
            for (uint64_t u = b; u < e; u++) {
              T x = fromBits<T>(u), g = f1(x), w = s.ref(x);
              if (!same(g, w)) { std::lock_guard<std::mutex> l(m); bad(u, x, 0, g, w); }
            }
            r.states += e - b; r.transitions += 2 * (e - b);
          });
          R.states += q.states; R.transitions += q.transitions;
        }
      } else {
        const size_t step = full ? 97 : 997;
        for (size_t sh = 0; sh < a.size(); sh += step)
          for (size_t i = 0; i < a.size(); i++) {
            T y = a[(i + sh) % a.size()], g = f2(a[i], y), w = s.ref2(a[i], y);
            R.states++; R.transitions += 2;
            if (!same(g, w)) bad(i, a[i], y, g, w);
          }
      }
      if (!only) R.samples.push_back(mode + " " + lib + " " + n + (sizeof(T) == 4 ? " 3f000001 3e800000" : " 3fe0000000000001 3fd0000000000000"));
      R.counts["symbols_" + mode]++;
    }
}
int main(int c, char **v) {
  const std::string cmd = v[1], mode = v[2];
  void *h = mode == "dl" ? dlopen(v[3], RTLD_NOW | RTLD_LOCAL) : nullptr;
  if (mode == "dl" && !h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  const char *only = cmd == "replay" ? v[4] : nullptr;
  const bool full = cmd == "run" && c > 4;
  uint64_t x = only && c > 5 ? strtoull(v[5], 0, 16) : 0, y = only && c > 6 ? strtoull(v[6], 0, 16) : 0;
  one<double>(mode, h, v[3], full, only, x, y);
  one<float>(mode, h, v[3], full, only, x, y);
  if (only) return R.failures ? 1 : 0;
  print(R);
}
