// The generated Vc wrappers on a stand-in for Vc.
//   vc run <lib> <width> <tier>          vc replay <lib> <width> <key...>
#include "fntable.hpp"
#include "lattice.hpp"
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
static void *LIB;
template <class T> struct F { std::string name; T (*ref)(T); T (*s)(T); void (*v)(const uint32_t, T *, T *); };
template <class T> NOI T xasin(T x) { return std::asin(x); }
template <class T> NOI T xatan(T x) { return std::atan(x); }
template <class T> NOI T xcos(T x) { return std::cos(x); }
template <class T> NOI T xsin(T x) { return std::sin(x); }
template <class T> NOI T xlog(T x) { return std::log(x); }
template <class T> NOI T xinv(T x) { return 1 / x; }
template <class T> NOI T xisqrt(T x) { return 1 / std::sqrt(x); }
template <class T> NOI T xid(T x) { return x; }
template <class T> std::vector<F<T>> functions() {
  std::vector<F<T>> r;
  auto add = [&](const char *n, T (*f)(T)) {
    const std::string b = std::string("vc_") + n + (sizeof(T) == 4 ? "f" : "");
    r.push_back({n, f, (T(*)(T))dlsym(LIB, b.c_str()), (void (*)(const uint32_t, T *, T *))dlsym(LIB, (b + "v").c_str())});
  };
  add("asin", xasin<T>); add("atan", xatan<T>); add("cos", xcos<T>); add("inv", xinv<T>); add("log", xlog<T>); add("sin", xsin<T>); add("isqrt", xisqrt<T>); add("identity", xid<T>);
  return r;
}
static sigjmp_buf JB;
static volatile int ARMED;
static void onSig(int) { if (!ARMED) _exit(99); siglongjmp(JB, 1); }
static const size_t AREA = 3 * 4096;
template <class T> bool arrayAt(const F<T> &f, unsigned n, int end, unsigned io, unsigned oo, unsigned rot, std::string *t) {
  static char *area[2] = {nullptr};
  if (!area[0]) for (auto &a : area) { char *m = (char *)mmap(nullptr, AREA + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); a = m + 4096; mprotect(a, AREA, PROT_READ | PROT_WRITE); }
  static const std::vector<T> sp = specials<T>();
  T *i = end ? (T *)(area[0] + AREA) - n - io : (T *)area[0] + io, *o = end ? (T *)(area[1] + AREA) - n - oo : (T *)area[1] + oo;
  memset(area[0], 0x5a, AREA); memset(area[1], 0xa5, AREA);
  for (unsigned k = 0; k < n; k++) i[k] = sp[(k * 3 + rot) % sp.size()];
  std::vector<char> keep(area[0], area[0] + AREA);
  auto say = [&](const std::string &s) { if (t) *t = "vc_" + f.name + " array (" + tn<T>() + "), n=" + std::to_string(n) + ", offsets " + std::to_string(io) + "/" + std::to_string(oo) + ": " + s; return false; };
  ARMED = 1;
  const bool fault = sigsetjmp(JB, 1) != 0;
  if (!fault) f.v(n, i, o);
  ARMED = 0;
  if (fault) return say("invalid memory access or lane");
  if (memcmp(keep.data(), area[0], AREA)) return say("input changed");
  for (unsigned char *b = (unsigned char *)area[1], *e = b + AREA; b < e; b++)
    if ((b < (unsigned char *)o || b >= (unsigned char *)(o + n)) && *b != 0xa5) return say("memory next to the output changed");
  for (unsigned k = 0; k < n; k++) if (!same(o[k], f.ref(i[k]))) return say("element " + std::to_string(k) + " for " + hexf(i[k]) + " is " + hexf(o[k]) + ", expected " + hexf(f.ref(i[k])));
  return true;
}
template <class T> bool scalarAt(const F<T> &f, T x, std::string *t) {
  ARMED = 1;
  const bool fault = sigsetjmp(JB, 1) != 0;
  T g = 0;
  if (!fault) g = f.s(x);
  ARMED = 0;
  if (!fault && same(g, f.ref(x))) return true;
  if (t) *t = "vc_" + f.name + " (" + tn<T>() + ") of " + hexf(x) + ": " + (fault ? "invalid access" : hexf(g) + ", expected " + hexf(f.ref(x)));
  return false;
}
template <class T> void runAll(Result &r, unsigned w, bool th) {
  const auto a = args<T>();
  for (const auto &f : functions<T>()) {
    r.states++;
    if (!f.s || !f.v) { r.fail(0, "missing " + f.name + " " + tn<T>(), "vc_" + f.name + " (" + tn<T>() + ") is missing"); continue; }
    for (size_t i = 0; i < a.size(); i += th ? 1 : 7) {
      std::string t;
      char k[64];
      r.states++; r.transitions++;
      if (!scalarAt(f, a[i], &t)) { snprintf(k, sizeof k, " %s %llx", tn<T>(), (unsigned long long)ub(a[i])); r.fail(i, "scalar " + f.name + k, t); }
    }
    const unsigned N = 4 * w + 3 < 20 ? 20 : 4 * w + 3;
    for (unsigned n = 0; n <= N; n++)
      for (int end = 0; end < 2; end++)
        for (unsigned io = 0; io < (th ? 16u : 5u); io++)
          for (unsigned oo = 0; oo < (th ? 16u : 5u); oo++) {
            std::string t;
            char k[100];
            r.states++; r.transitions += n;
            const unsigned rot = n + io * 5 + oo * 3;
            if (!arrayAt(f, n, end, io, oo, rot, &t)) { snprintf(k, sizeof k, " %s %u %d %u %u %u", tn<T>(), n, end, io, oo, rot); r.fail(n, "array " + f.name + k, t); }
          }
    r.samples.push_back("array " + f.name + " " + tn<T>() + " 13 1 1 2 4");
  }
}
template <class T> int replay(char **v) {
  for (const auto &f : functions<T>())
    if (f.name == v[1]) {
      std::string t, k = v[0];
      bool ok = f.s && f.v;
      if (ok && k == "scalar") ok = scalarAt(f, fromBits<T>(strtoull(v[3], 0, 16)), &t);
      if (ok && k == "array") ok = arrayAt(f, atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]), atoi(v[7]), &t);
      printf("%s\n%s\n", t.c_str(), ok ? "HELD" : "VIOLATED");
      return !ok;
    }
  return 2;
}
int main(int, char **v) {
  LIB = dlopen(v[2], RTLD_NOW);
  if (!LIB) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSig; sa.sa_flags = SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT}) sigaction(s, &sa, nullptr);
  if (std::string(v[1]) == "replay") return v[6][0] == 'f' ? replay<float>(v + 4) : replay<double>(v + 4);
  Result r;
  runAll<float>(r, atoi(v[3]), std::string(v[4]) == "thorough");
  runAll<double>(r, atoi(v[3]), std::string(v[4]) == "thorough");
  print(r);
}
