// The C functions of the generated fat library against the functions they are named after.
//   fat run <lib> <tier>        exploration (JSON)
//   fat replay <lib> <key...>
#include "vdtMath.h"
#include "stdwrap.h"
#include "fntable.hpp"
#include "lattice.hpp"
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static void *LIB;
#define NI __attribute__((noinline))
template <class T> struct F {
  std::string name;
  int nin, nout;
  void (*ref)(const T *, T *);
  void *s = nullptr, *v = nullptr;
  void scalar(const T *i, T *o) const {
    if (nout == 2) ((void (*)(T, T *, T *))s)(i[0], o, o + 1);
    else if (nin == 1) o[0] = ((T(*)(T))s)(i[0]);
    else if (nin == 2) o[0] = ((T(*)(T, T))s)(i[0], i[1]);
    else o[0] = ((T(*)(T, T, T))s)(i[0], i[1], i[2]);
  }
  void array(T *const *i, T *const *o, long n) const {
    if (nout == 2) ((void (*)(const T *, T *, T *, long))v)(i[0], o[0], o[1], n);
    else if (nin == 1) ((void (*)(const T *, T *, long))v)(i[0], o[0], n);
    else if (nin == 2) ((void (*)(const T *, const T *, T *, long))v)(i[0], i[1], o[0], n);
    else ((void (*)(const T *, const T *, const T *, T *, long))v)(i[0], i[1], i[2], o[0], n);
  }
};
// references; kept out of line so that nothing is contracted or shared
#define R1(n, d, f) static NI void r_##n(const double *i, double *o) { o[0] = d(i[0]); } static NI void r_##n(const float *i, float *o) { o[0] = f(i[0]); }
R1(asin, vdt::fast_asin, vdt::fast_asinf) R1(atan, vdt::fast_atan, vdt::fast_atanf) R1(cos, vdt::fast_cos, vdt::fast_cosf) R1(exp, vdt::fast_exp, vdt::fast_expf)
R1(inv, vdt::fast_inv, vdt::fast_invf) R1(log, vdt::fast_log, vdt::fast_logf) R1(sin, vdt::fast_sin, vdt::fast_sinf) R1(isqrt, vdt::fast_isqrt, vdt::fast_isqrtf)
template <class T> NI void r_identity(const T *i, T *o) { o[0] = i[0]; }
template <class T> NI void r_sqrt(const T *i, T *o) { o[0] = std::sqrt(i[0]); }
template <class T> NI void r_div(const T *i, T *o) { o[0] = i[0] / i[1]; }
template <class T> NI void r_fma(const T *i, T *o) { volatile T p = i[0] * i[1]; o[0] = p + i[2]; }
template <class T> NI void r_fmac(const T *i, T *o) { o[0] = std::fma(i[0], i[1], i[2]); }
static NI void r_atan2(const double *i, double *o) { o[0] = vdt::fast_atan2(i[0], i[1]); }
static NI void r_atan2(const float *i, float *o) { o[0] = vdt::fast_atan2f(i[0], i[1]); }
static NI void r_sincos(const double *i, double *o) { vdt::fast_sincos(i[0], o[0], o[1]); }
static NI void r_sincos(const float *i, float *o) { vdt::fast_sincosf(i[0], o[0], o[1]); }

template <class T> std::vector<F<T>> functions() {
  typedef void (*P)(const T *, T *);
  std::vector<F<T>> v;
  auto add = [&](const char *n, int i, int o, P r) {
    F<T> f; f.name = n; f.nin = i; f.nout = o; f.ref = r;
    const std::string b = std::string("vdt_") + n + (sizeof(T) == 4 ? "f" : "");
    f.s = dlsym(LIB, b.c_str());
    f.v = dlsym(LIB, (b + "v").c_str());
    v.push_back(f);
  };
  add("asin", 1, 1, (P)r_asin); add("atan", 1, 1, (P)r_atan); add("cos", 1, 1, (P)r_cos); add("exp", 1, 1, (P)r_exp); add("inv", 1, 1, (P)r_inv);
  add("log", 1, 1, (P)r_log); add("sin", 1, 1, (P)r_sin); add("isqrt", 1, 1, (P)r_isqrt); add("identity", 1, 1, (P)r_identity<T>); add("sqrt", 1, 1, (P)r_sqrt<T>);
  add("atan2", 2, 1, (P)r_atan2); add("div", 2, 1, (P)r_div<T>); add("fma", 3, 1, (P)r_fma<T>); add("fmac", 3, 1, (P)r_fmac<T>); add("sincos", 1, 2, (P)r_sincos);
  return v;
}
template <class T> std::string show(const T *p, int n) { std::string s; for (int i = 0; i < n; i++) s += (i ? ", " : "") + hexf(p[i]); return s; }
template <class T> bool agree(const F<T> &f, const T *in, const T *got, std::string *t, const char *what) {
  T w[2];
  f.ref(in, w);
  for (int k = 0; k < f.nout; k++)
    if (!same(got[k], w[k])) {
      if (t) *t = "vdt_" + f.name + what + " (" + tn<T>() + "): for " + show(in, f.nin) + " output " + std::to_string(k + 1) + " is " + hexf(got[k]) + ", expected " + hexf(w[k]);
      return false;
    }
  return true;
}
template <class T> std::string hexKey(const T *in, int n) { std::string s; for (int i = 0; i < n; i++) { char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long)ub(in[i])); s += b; } return s; }

template <class T> bool scalarAt(const F<T> &f, const T *in, std::string *t) {
  T o[2] = {(T)-77, (T)-78};
  f.scalar(in, o);
  return agree(f, in, o, t, "");
}

// one array call between guard pages; in/out end exactly at the guard or start after it
static thread_local sigjmp_buf JB;
static thread_local volatile uintptr_t FAULT;
static thread_local volatile int ARMED;
static void onSegv(int, siginfo_t *si, void *) { if (!ARMED) _exit(99); FAULT = (uintptr_t)si->si_addr; siglongjmp(JB, 1); }
static void onAlarm(int) { _exit(98); }
static void handlers() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
}
static const size_t AREA = 4 * 4096;
template <class T> bool arrayAt(const F<T> &f, unsigned n, int end, unsigned off, unsigned rot, std::string *t) {
  static thread_local char *area[5] = {nullptr};
  if (!area[0])
    for (auto &a : area) {
      char *m = (char *)mmap(nullptr, AREA + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      a = m + 4096;
      mprotect(a, AREA, PROT_READ | PROT_WRITE);
    }
  static const std::vector<T> sp = specials<T>();
  T *p[5];
  for (int k = 0; k < 5; k++) {
    memset(area[k], 0xa5, AREA);
    const unsigned o = (off * (k + 1)) % 9;
    p[k] = end ? (T *)(area[k] + AREA) - n - o : (T *)area[k] + o;
  }
  for (int k = 0; k < f.nin; k++) for (unsigned i = 0; i < n; i++) p[k][i] = sp[(i * (2 * k + 3) + rot * (k + 1) + n) % sp.size()];
  std::vector<T> keep[3];
  for (int k = 0; k < f.nin; k++) keep[k].assign(p[k], p[k] + n);
  T *const in[3] = {p[0], p[1], p[2]}, *const out[2] = {p[3], p[4]};
  ARMED = 1;
  bool fault = sigsetjmp(JB, 1) != 0;
  if (!fault) f.array(in, out, (long)n);
  ARMED = 0;
  auto say = [&](const std::string &s) { if (t) *t = "vdt_" + f.name + " array (" + tn<T>() + "), n=" + std::to_string(n) + ": " + s; return false; };
  if (fault) return say("memory access outside its arrays");
  for (int k = 0; k < f.nin; k++) if (n && memcmp(keep[k].data(), p[k], n * sizeof(T))) return say("input changed");
  for (int k = 3; k < 3 + f.nout; k++)
    for (unsigned char *b = (unsigned char *)area[k], *e = b + AREA; b < e; b++)
      if ((b < (unsigned char *)p[k] || b >= (unsigned char *)(p[k] + n)) && *b != 0xa5) return say("memory next to an output changed");
  for (unsigned i = 0; i < n; i++) {
    T a[3] = {p[0][i], f.nin > 1 ? p[1][i] : 0, f.nin > 2 ? p[2][i] : 0}, o[2] = {p[3][i], f.nout > 1 ? p[4][i] : 0};
    if (!agree(f, a, o, t, (" array element " + std::to_string(i) + " of " + std::to_string(n)).c_str())) return false;
  }
  return true;
}
// long arrays, contents from the bit pattern lattice
template <class T> bool longAt(const F<T> &f, unsigned n, unsigned off, std::string *t) {
  static const std::vector<T> a = args<T>();
  static thread_local std::vector<T> buf[5];
  T *p[5];
  for (int k = 0; k < 5; k++) { buf[k].assign(n + 16, (T)-77.25); p[k] = buf[k].data() + (off * (k + 1)) % 9; }
  for (int k = 0; k < f.nin; k++) for (unsigned i = 0; i < n; i++) p[k][i] = a[((size_t)i * (2 * k + 3) + n + 977 * k + i / a.size()) % a.size()];
  T *const in[3] = {p[0], p[1], p[2]}, *const out[2] = {p[3], p[4]};
  f.array(in, out, (long)n);
  for (unsigned i = 0; i < n; i++) {
    T x[3] = {p[0][i], f.nin > 1 ? p[1][i] : 0, f.nin > 2 ? p[2][i] : 0}, o[2] = {p[3][i], f.nout > 1 ? p[4][i] : 0};
    if (!agree(f, x, o, nullptr, "")) return agree(f, x, o, t, (" array element " + std::to_string(i) + " of " + std::to_string(n)).c_str());
  }
  for (int k = 3; k < 3 + f.nout; k++)
    for (T *q = buf[k].data(), *e = q + n + 16; q < e; q++)
      if ((q < p[k] || q >= p[k] + n) && *q != (T)-77.25) { if (t) *t = "vdt_" + f.name + " array (" + tn<T>() + "), n=" + std::to_string(n) + ": memory next to an output changed"; return false; }
  return true;
}
// more elements than are backed by memory: has to run into the missing part of its own arrays
template <class T> int started(const F<T> &f, long n) {
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    handlers();
    signal(SIGALRM, onAlarm);
    const size_t span = ((size_t)n * sizeof(T) + 8191) / 4096 * 4096, gap = (size_t)1 << 36;
    char *a[5];
    for (auto &x : a) {
      char *m = (char *)mmap(nullptr, span + 2 * gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) _exit(97);
      x = m + gap;
      mprotect(x, 70000 * sizeof(T) / 4096 * 4096, PROT_READ | PROT_WRITE);
    }
    T *const in[3] = {(T *)a[0], (T *)a[1], (T *)a[2]}, *const out[2] = {(T *)a[3], (T *)a[4]};
    alarm(20);
    ARMED = 1;
    if (sigsetjmp(JB, 1) == 0) { f.array(in, out, n); _exit(1); }
    for (auto &x : a) if (FAULT >= (uintptr_t)x && FAULT < (uintptr_t)x + (size_t)n * sizeof(T)) _exit(0);
    _exit(2);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
}
// complete run; repeated block mapping, last block of each output separate
template <class T> int complete(const F<T> &f, long n) {
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    handlers();
    signal(SIGALRM, onAlarm);
    const size_t B = 2 << 20, blocks = ((size_t)n * sizeof(T) + B - 1) / B, span = blocks * B;
    T *arr[5];
    for (int k = 0; k < 5; k++) {
      arr[k] = nullptr;
      if (k < 3 ? k >= f.nin : k - 3 >= f.nout) continue;
      int fd = memfd_create("vdtmc", 0);
      if (fd < 0 || ftruncate(fd, B)) _exit(97);
      char *m = (char *)mmap(nullptr, span + 2 * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) _exit(97);
      char *a = m + B;
      for (size_t b = 0; b < blocks; b++) if (mmap(a + b * B, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(97);
      if (k >= 3 && mmap(a + (blocks - 1) * B, B, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(97);
      arr[k] = (T *)(a + span) - n;
      if (k < 3) { const T s[] = {(T)0.5, (T)0.25, (T)0.875, (T)1, (T)0.75}; T *w = (T *)a; for (size_t i = 0; i < B / sizeof(T); i++) w[i] = s[(i + k) % 5]; }
    }
    alarm(600);
    ARMED = 1;
    T *const in[3] = {arr[0], arr[1], arr[2]}, *const out[2] = {arr[3], arr[4]};
    if (sigsetjmp(JB, 1) == 0) f.array(in, out, n); else _exit(2);
    for (size_t i = (size_t)n - B / sizeof(T); i < (size_t)n; i++) {
      T a[3] = {arr[0][i], arr[1] ? arr[1][i] : 0, arr[2] ? arr[2][i] : 0}, o[2] = {arr[3][i], arr[4] ? arr[4][i] : 0};
      if (!agree<T>(f, a, o, nullptr, "")) _exit(1);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
}
static const char *TEXT(int v) { return v == 1 ? "did not process all elements" : v == 98 ? "made no progress" : "touched memory outside its arrays"; }

template <class T> void runAll(Result &all, bool th, bool big) {
  const auto fs = functions<T>();
  const auto a = args<T>();
  const auto sp = specials<T>();
  for (size_t q = 0; q < fs.size(); q++) {
    const F<T> &f = fs[q];
    all.states++;
    if (!f.s || !f.v) { all.fail(0, "missing " + f.name + " " + tn<T>(), "vdt_" + f.name + " (" + tn<T>() + ") is missing from the library"); continue; }
    // scalar: lattice with shifts for further operands, cube of the special values
    const size_t shifts = f.nin == 1 ? 1 : th ? 200 : 12;
    all.merge(explore(shifts, 1, [&](uint64_t b, uint64_t, Result &r) {
      for (size_t i = 0; i < a.size(); i++) {
        T in[3] = {a[i], a[(i * 7 + b * 131) % a.size()], a[(i * 3 + b * 977 + 5) % a.size()]};
        r.states++; r.transitions++;
        std::string t;
        if (!scalarAt(f, in, &t)) r.fail(i, "scalar " + f.name + " " + tn<T>() + hexKey(in, f.nin), t);
      }
    }));
    const size_t S = sp.size(), cube = f.nin == 1 ? S : f.nin == 2 ? S * S : S * S * S;
    all.merge(explore(cube, 4096, [&](uint64_t b, uint64_t e, Result &r) {
      for (uint64_t i = b; i < e; i++) {
        T in[3] = {sp[i % S], sp[i / S % S], sp[i / S / S % S]};
        r.states++; r.transitions++;
        std::string t;
        if (!scalarAt(f, in, &t)) r.fail(i, "scalar " + f.name + " " + tn<T>() + hexKey(in, f.nin), t);
      }
    }));
    { T in[3] = {(T)0.625, (T)0.3, (T)-2.5}; all.samples.push_back("scalar " + f.name + " " + tn<T>() + hexKey(in, f.nin)); }
    // arrays
    const unsigned N = th ? 260 : 100;
    all.merge(explore(N + 1, 1, [&](uint64_t n, uint64_t, Result &r) {
      for (int end = 0; end < 2; end++)
        for (unsigned off = 0; off < 9; off++)
          for (unsigned rot = 0; rot < sp.size(); rot += th ? 1 : 3) {
            std::string t;
            r.states++; r.transitions += n;
            if (!arrayAt(f, (unsigned)n, end, off, rot, &t)) {
              char k[100];
              snprintf(k, sizeof k, "array %s %s %u %d %u %u", f.name.c_str(), tn<T>(), (unsigned)n, end, off, rot);
              r.fail(n, k, t);
            }
          }
    }));
    all.samples.push_back("array " + f.name + " " + tn<T>() + " 37 1 2 3");
    std::vector<unsigned> sizes;
    for (unsigned p = 7; p <= (th ? 22u : 18u); p++) for (int d = -1; d <= 1; d++) sizes.push_back((1u << p) + d);
    sizes.push_back(1000); sizes.push_back(100003);
    all.merge(explore(sizes.size(), 1, [&](uint64_t b, uint64_t, Result &r) {
      const unsigned n = sizes[sizes.size() - 1 - b];
      std::string t;
      r.states++; r.transitions += n;
      r.counts["long_arrays"]++;
      if (!longAt(f, n, n % 9, &t)) r.fail(n, "long " + f.name + " " + tn<T>() + " " + std::to_string(n) + " " + std::to_string(n % 9), t);
    }));
    if (!big) continue;
    const long hs[] = {(1l << 31) - 1, 1l << 31, (1l << 31) + 5, 1l << 32, (1l << 32) + 9, (1l << 33) + 1};
    for (long n : hs) {
      int v = started(f, n);
      all.states++; all.transitions += 70000;
      if (v == 97) { all.counts["setup_failures"]++; continue; }
      all.counts["huge_started"]++;
      if (v) all.fail(n, "started " + f.name + " " + tn<T>() + " " + std::to_string(n), "vdt_" + f.name + " array (" + tn<T>() + "), n=" + std::to_string(n) + ": " + TEXT(v));
    }
    if (th || (sizeof(T) == 4 && f.name == "identity"))
      for (long n : {(1l << 31) + 3, (1l << 32) + 3}) {
        int v = complete(f, n);
        all.states++; all.transitions += n;
        if (v == 97) { all.counts["setup_failures"]++; continue; }
        all.counts["huge_complete"]++;
        if (v) all.fail(n, "complete " + f.name + " " + tn<T>() + " " + std::to_string(n), "vdt_" + f.name + " array (" + tn<T>() + "), n=" + std::to_string(n) + ": " + TEXT(v));
      }
  }
}
template <class T> int replay(int c, char **v) {  // v: kind name type ...
  const std::string kind = v[0];
  for (const auto &f : functions<T>())
    if (f.name == v[1]) {
      std::string t;
      bool ok = true;
      if (kind == "missing") ok = f.s && f.v;
      else if (!f.s || !f.v) ok = false;
      else if (kind == "scalar") { T in[3] = {0, 0, 0}; for (int i = 0; i < f.nin && 3 + i < c; i++) in[i] = fromBits<T>(strtoull(v[3 + i], 0, 16)); ok = scalarAt(f, in, &t); }
      else if (kind == "array") ok = arrayAt(f, atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]), &t);
      else if (kind == "long") ok = longAt(f, atoi(v[3]), atoi(v[4]), &t);
      else { int r = kind == "started" ? started(f, atol(v[3])) : complete(f, atol(v[3])); ok = !r; if (r) t = TEXT(r); }
      printf("%s\n%s\n", t.c_str(), ok ? "HELD" : "VIOLATED");
      return ok ? 0 : 1;
    }
  return 2;
}
int main(int c, char **v) {
  LIB = dlopen(v[2], RTLD_NOW);
  if (!LIB) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  handlers();
  if (std::string(v[1]) == "replay") return v[5][0] == 's' || v[5][0] == 'f' ? replay<float>(c - 3, v + 3) : replay<double>(c - 3, v + 3);
  const bool th = std::string(v[3]) == "thorough", big = c > 4;
  Result r;
  runAll<float>(r, th, big);
  runAll<double>(r, th, big);
  print(r);
}
