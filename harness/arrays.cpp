// Exhaustive exploration of the array functions of the built library.
//   arrays same <tier>     array == scalar, for lengths x alignments x contents
//   arrays mem  <tier>     memory footprint, guard pages, huge sizes
//   arrays fpe  <tier>     floating point exceptions on in-domain arrays
//   arrays replay <key...>
#include "fntable.hpp"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// --- array == scalar -----------------------------------------------------------
// A configuration is (function, n, in offset, out offset, content kind, a, b, c).
struct Cfg { unsigned n, io, oo; int kind; unsigned a, b, c; };

template <class T> struct Alphabet {
  std::vector<T> v = specials<T>();
  size_t n() const { return v.size(); }
  T base(unsigned k) const { return k ? (T)0.37 : (T)0.75; }
};

// the i-th input (and second input) of a configuration; index into a value list
template <class T> inline void content(const Cfg &c, const Alphabet<T> &A, unsigned i, T &x, T &y) {
  const size_t L = A.n();
  switch (c.kind) {
    case 0:  // one special at position a, second operand special as well
      x = i == c.a ? A.v[c.b % L] : A.base(c.c & 1);
      y = i == c.a ? A.v[(c.b * 5 + 3 + c.c * 11) % L] : A.base(~c.c & 1);
      break;
    case 1:  // periodic mixture with stride a and shift b
      x = A.v[(i * c.a + c.b) % L];
      y = A.v[(i * (c.a + 2) + c.b / 2) % L];
      break;
    default: {  // lattice over bit patterns, starting point b and stride a
      const uint64_t k = (uint64_t)i * c.a + c.b;
      if (sizeof(T) == 4) { x = fromBits<T>(k & 0xffffffffu); y = fromBits<T>((k * 2654435761u) & 0xffffffffu); }
      else { x = fromBits<T>((k & 0xffffffffu) << 32 | (k * 2654435761u & 0xffffffffu)); y = fromBits<T>((k * 2654435761u & 0xffffffffu) << 32 | k); }
    }
  }
}

template <class T> std::string keyOf(const char *fn, const Cfg &c) {
  char b[160];
  snprintf(b, sizeof b, "same %s %s %u %u %u %d %u %u %u", fn, tn<T>(), c.n, c.io, c.oo, c.kind, c.a, c.b, c.c);
  return b;
}

template <class T> struct Work {
  std::vector<T> x, y, o;
  // expected values of kind 0 and 1, by alphabet index (pairs for two arguments)
  void ensure(size_t n) { if (x.size() < n + 64) { x.resize(n + 64); y.resize(n + 64); o.resize(n + 64); } }
};

template <class T> bool runCfg(const Entry<T> &f, const Cfg &c, const Alphabet<T> &A, Work<T> &w, std::string *text) {
  w.ensure(c.n);
  T *x = (T *)(((uintptr_t)w.x.data() + 127) & ~(uintptr_t)63) + c.io, *y = (T *)(((uintptr_t)w.y.data() + 127) & ~(uintptr_t)63) + (c.io * 3 + 1) % 16;
  T *o = (T *)(((uintptr_t)w.o.data() + 127) & ~(uintptr_t)63) + c.oo;
  for (unsigned i = 0; i < c.n; i++) { content<T>(c, A, i, x[i], y[i]); o[i] = (T)-77.25; }
  f.array(c.n, x, y, o);
  for (unsigned i = 0; i < c.n; i++) {
    const T e = f.eval(x[i], y[i]);
    if (!same(o[i], e)) {
      if (text) {
        char b[400];
        snprintf(b, sizeof b, "array %s (%s precision), n=%u, offsets %u/%u: element %u for input %s%s%s is %s, scalar gives %s", f.name, sizeof(T) == 4 ? "single" : "double", c.n, c.io, c.oo, i,
                 hexf(x[i]).c_str(), f.s2 ? ", " : "", f.s2 ? hexf(y[i]).c_str() : "", hexf(o[i]).c_str(), hexf(e).c_str());
        *text = b;
      }
      return false;
    }
  }
  return true;
}

template <class T> void sameAll(Result &all, bool th) {
  const Alphabet<T> A;
  const auto &tab = table<T>();
  const size_t L = A.n();
  const unsigned N0 = th ? 130 : 70, N1 = th ? 1100 : 400;
  // kind 0 and 1
  struct J { size_t f; unsigned n; int kind; };
  std::vector<J> jobs;
  for (size_t f = 0; f < tab.size(); f++) {
    for (unsigned n = 0; n <= N0; n++) jobs.push_back({f, n, 0});
    for (unsigned n = 0; n <= N1; n++) jobs.push_back({f, n, 1});
  }
  all.merge(explore(jobs.size(), 1, [&](uint64_t b, uint64_t, Result &r) {
    static thread_local Work<T> w;
    const J &j = jobs[b];
    const Entry<T> &f = tab[j.f];
    auto visit = [&](const Cfg &c) {
      r.states++;
      r.transitions += c.n;
      std::string t;
      if (!runCfg<T>(f, c, A, w, nullptr)) { runCfg<T>(f, c, A, w, &t); r.fail(b, keyOf<T>(f.name, c), t); }
    };
    if (j.kind == 0) {
      const unsigned off[][2] = {{0, 0}, {1, 0}, {0, 1}, {3, 2}};
      for (unsigned p = 0; p < j.n; p++)
        for (unsigned s = 0; s < L; s++)
          for (unsigned k = 0; k < 2; k++)
            for (auto &o : off) visit({j.n, o[0], o[1], 0, p, s, k});
    } else {
      const unsigned O = 16;
      for (unsigned io = 0; io < O; io++)
        for (unsigned oo = 0; oo < O; oo++)
          visit({j.n, io, oo, 1, 1 + 2 * (j.n % 3), (unsigned)(j.n + io * 3 + oo), 0});
    }
    r.counts[std::string(j.kind ? "mixed" : "placed") + tn<T>()]++;
    if (j.n == 19 && j.f % 9 == 0) { r.samples.push_back(keyOf<T>(f.name, {j.n, 1, 2, 1, 3, 5, 0})); }
  }));
  // kind 2: long arrays over bit pattern lattices, sizes around powers of two
  std::vector<unsigned> sizes;
  for (unsigned p = 9; p <= (th ? 22u : 20u); p++) for (int d = -2; d <= 2; d++) sizes.push_back((1u << p) + d);
  sizes.push_back(1000); sizes.push_back(100003);
  all.merge(explore(tab.size() * sizes.size(), 1, [&](uint64_t b, uint64_t, Result &r) {
    static thread_local Work<T> w;
    const Entry<T> &f = tab[b % tab.size()];
    const unsigned n = sizes[sizes.size() - 1 - b / tab.size()];
    const Cfg c = {n, n % 5, n % 7, 2, (unsigned)(4294967296.0 / n) | 1, n % 3 * 977, 0};
    r.states++;
    r.transitions += n;
    std::string t;
    if (!runCfg<T>(f, c, A, w, &t)) r.fail(1000000 + b, keyOf<T>(f.name, c), t);
    r.counts[std::string("long") + tn<T>()]++;
  }));
}

// thorough: every float through the array function
static void fullFloat(Result &all) {
  const Alphabet<float> A;
  for (const auto &f : table<float>()) {
    if (!f.fast && f.dom != ISQRT && f.dom != INV) continue;
    all.merge(explore(1ull << 16, 1, [&](uint64_t b, uint64_t, Result &r) {
      static thread_local Work<float> w;
      const Cfg c = {1u << 16, 0, 0, 2, 1, (unsigned)(b << 16), 0};
      std::string t;
      r.states++;
      r.transitions += c.n;
      if (!runCfg<float>(f, c, A, w, &t)) r.fail(2000000 + b, keyOf<float>(f.name, c), t);
      r.counts["every_float"]++;
    }));
  }
}

// --- memory footprint -----------------------------------------------------------
static thread_local sigjmp_buf JB;
static thread_local volatile uintptr_t FAULT;
static thread_local volatile int ARMED;
static void onSegv(int, siginfo_t *si, void *) {
  if (!ARMED) _exit(99);
  FAULT = (uintptr_t)si->si_addr;
  siglongjmp(JB, 1);
}
static void onAlarm(int) { _exit(98); }

struct Region {  // [guard][pages][guard], with a writable alias of the pages
  char *base = nullptr, *lo = nullptr, *hi = nullptr, *rw = nullptr;
  size_t len;
  Region(size_t pages, bool writable) {
    len = (pages + 2) * 4096;
    int fd = memfd_create("vdtmc", 0);
    if (fd < 0 || ftruncate(fd, pages * 4096)) { perror("memfd"); exit(2); }
    base = (char *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    lo = base + 4096;
    hi = base + len - 4096;
    rw = (char *)mmap(nullptr, pages * 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (base == MAP_FAILED || rw == MAP_FAILED || mmap(lo, hi - lo, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(2); }
    close(fd);
  }
};

// one call: arrays of n elements at the given element offsets from the start (end=false)
// or ending that many elements before the guard page (end=true)
template <class T> bool footprint(const Entry<T> &f, unsigned n, bool end, unsigned io, unsigned oo, std::string *text) {
  const size_t pages = (n * sizeof(T) + 64 * sizeof(T)) / 4096 + 1;
  static thread_local std::map<size_t, std::vector<Region *>> pool;
  auto &P = pool[pages];
  if (P.empty()) for (int i = 0; i < 3; i++) P.push_back(new Region(pages, i == 2));
  Region &rx = *P[0], &ry = *P[1], &ro = *P[2];
  auto place = [&](Region &r, unsigned off) { return end ? (T *)r.hi - off - n : (T *)r.lo + off; };
  T *x = place(rx, io), *y = place(ry, io), *o = place(ro, oo);
  const auto sp = specials<T>();
  T *wx = (T *)(rx.rw + ((char *)x - rx.lo)), *wy = (T *)(ry.rw + ((char *)y - ry.lo));
  for (unsigned i = 0; i < n; i++) { wx[i] = sp[(i * 3 + n) % sp.size()]; wy[i] = sp[(i * 5 + 1) % sp.size()]; }
  memset(ro.lo, 0xa5, ro.hi - ro.lo);
  bool fault = false;
  ARMED = 1;
  if (sigsetjmp(JB, 1) == 0) f.array(n, x, y, o);
  else fault = true;
  ARMED = 0;
  const char *what = nullptr;
  long where = 0;
  if (fault) {
    auto in = [&](Region &r) { return FAULT >= (uintptr_t)r.base && FAULT < (uintptr_t)r.base + r.len; };
    what = in(rx) ? "accessed memory outside (or wrote) its first input" : in(ry) ? "accessed memory outside (or wrote) its second input" : in(ro) ? "accessed memory outside its output" : "crashed";
    where = in(rx) ? (long)(FAULT - (uintptr_t)x) : in(ry) ? (long)(FAULT - (uintptr_t)y) : in(ro) ? (long)(FAULT - (uintptr_t)o) : 0;
  } else {
    const unsigned char *b = (unsigned char *)ro.lo, *s = (unsigned char *)o, *e = (unsigned char *)(o + n);
    for (; b < (unsigned char *)ro.hi && !what; b++) if ((b < s || b >= e) && *b != 0xa5) { what = "wrote next to its output"; where = (long)(b - s); }
    for (unsigned i = 0; i < n && !what; i++) {
      bool untouched = true;
      for (size_t k = 0; k < sizeof(T); k++) untouched = untouched && s[i * sizeof(T) + k] == 0xa5;
      if (untouched) { what = "did not write every output element"; where = (long)(i * sizeof(T)); }
    }
  }
  if (what && text) {
    char b[300];
    snprintf(b, sizeof b, "array %s (%s precision), n=%u %s, offsets %u/%u: %s (byte %ld)", f.name, sizeof(T) == 4 ? "single" : "double", n, end ? "ending at a guard page" : "starting after a guard page", io, oo, what, where);
    *text = b;
  }
  return !what;
}

// A large n with only the first `avail` elements backed by memory: the function has to
// run into the missing part of one of its own arrays. Forked, with a time limit.
// 0 ok, 1 returned early, 2 touched memory outside its arrays, 3 no progress
template <class T> int huge(const Entry<T> &f, uint32_t n, size_t avail) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    signal(SIGALRM, onAlarm);
    const size_t span = ((size_t)n * sizeof(T) + 8191) / 4096 * 4096, gap = (size_t)1 << 36;
    char *area[3];
    for (auto &a : area) {
      char *m = (char *)mmap(nullptr, span + 2 * gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) _exit(97);
      a = m + gap;
      mprotect(a, (avail * sizeof(T) + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE);
    }
    alarm(20);
    ARMED = 1;
    if (sigsetjmp(JB, 1) == 0) { f.array(n, (T *)area[0], (T *)area[1], (T *)area[2]); _exit(1); }
    for (auto &a : area) if (FAULT >= (uintptr_t)a && FAULT < (uintptr_t)a + (size_t)n * sizeof(T)) _exit(0);
    _exit(2);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 98 ? 3 : WEXITSTATUS(st);
  return 2;
}

// A complete run over n elements: the arrays are one small block mapped again and again,
// except that the last block of the output is memory of its own.
// 0 ok, 1 last elements wrong, 2 fault, 3 time
template <class T> int hugeRun(const Entry<T> &f, uint32_t n) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    signal(SIGALRM, onAlarm);
    const size_t B = 2 << 20, blocks = ((size_t)n * sizeof(T) + B - 1) / B, span = blocks * B;
    T *arr[3];
    for (int k = 0; k < 3; k++) {
      if (k == 1 && f.s) { arr[1] = arr[0]; continue; }
      int fd = memfd_create("vdtmc", 0);
      if (fd < 0 || ftruncate(fd, B)) _exit(97);
      char *m = (char *)mmap(nullptr, span + 2 * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) _exit(97);
      char *a = m + B;
      // right aligned, so that the end of the array is the end of the mapping
      for (size_t b = 0; b < blocks; b++) if (mmap(a + b * B, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(97);
      if (k == 2 && mmap(a + (blocks - 1) * B, B, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(97);
      arr[k] = (T *)(a + span) - n;
      if (k < 2) { const T s[] = {(T)0.5, (T)0.25, (T)0.875, (T)1, (T)0.75}; T *w = (T *)a; for (size_t i = 0; i < B / sizeof(T); i++) w[i] = s[(i + k) % 5]; }
    }
    alarm(600);
    ARMED = 1;
    if (sigsetjmp(JB, 1) == 0) f.array(n, arr[0], arr[1], arr[2]);
    else _exit(2);
    const size_t tail = B / sizeof(T);
    for (size_t i = (size_t)n - tail; i < n; i++) if (!same(arr[2][i], f.eval(arr[0][i], arr[1][i]))) _exit(1);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 98 ? 3 : WEXITSTATUS(st);
  return 2;
}

static const char *HUGE_TEXT[] = {"", "did not process all elements", "touched memory outside its arrays", "made no progress"};

template <class T> void memAll(Result &all, bool th) {
  const auto &tab = table<T>();
  const unsigned N = th ? 400 : 160, O = th ? 16 : 8;
  all.merge(explore(tab.size() * (N + 1), 1, [&](uint64_t b, uint64_t, Result &r) {
    const Entry<T> &f = tab[b / (N + 1)];
    const unsigned n = (unsigned)(b % (N + 1));
    for (int end = 0; end < 2; end++)
      for (unsigned io = 0; io < O; io++)
        for (unsigned oo = 0; oo < O; oo++) {
          if (!th && io && oo && io != oo && (io + oo) % 3) continue;
          std::string t;
          r.states++;
          r.transitions += n;
          if (!footprint<T>(f, n, end, io, oo, &t)) {
            char k[120];
            snprintf(k, sizeof k, "mem %s %s %u %d %u %u", f.name, tn<T>(), n, end, io, oo);
            r.fail(b, k, t);
          }
        }
    r.counts[std::string("guarded") + tn<T>()]++;
    if (n == 7 && b / (N + 1) % 11 == 0) r.samples.push_back(std::string("mem ") + f.name + " " + tn<T>() + " 7 1 0 0");
  }));
  // sizes around 2^12..2^17, fully backed, ending at a guard page
  std::vector<unsigned> mid;
  for (unsigned p = 9; p <= 17; p++) for (int d = -1; d <= 1; d++) mid.push_back((1u << p) + d);
  all.merge(explore(tab.size() * mid.size(), 1, [&](uint64_t b, uint64_t, Result &r) {
    const Entry<T> &f = tab[b / mid.size()];
    const unsigned n = mid[b % mid.size()];
    std::string t;
    r.states++;
    r.transitions += n;
    if (!footprint<T>(f, n, true, 0, 0, &t)) {
      char k[120];
      snprintf(k, sizeof k, "mem %s %s %u 1 0 0", f.name, tn<T>(), n);
      r.fail(1000000 + b, k, t);
    }
    r.counts[std::string("mid") + tn<T>()]++;
  }));
  // huge n, started
  const uint32_t hs[] = {1u << 24, (1u << 24) + 1, 0x7fffffffu, 0x80000000u, 0x80000001u, 0x80000007u, 0xc0000000u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu};
  const size_t nh = sizeof hs / sizeof *hs;
  all.merge(explore(tab.size() * nh, 1, [&](uint64_t b, uint64_t, Result &r) {
    const Entry<T> &f = tab[b / nh];
    const uint32_t n = hs[b % nh];
    r.states++;
    r.transitions += 70000;
    int v = huge<T>(f, n, 70000);
    if (v > 3) { r.counts["setup_failures"]++; return; }
    if (v) {
      char k[120], t[200];
      snprintf(k, sizeof k, "huge %s %s %u", f.name, tn<T>(), n);
      snprintf(t, sizeof t, "array %s (%s precision), n=%u: %s", f.name, sizeof(T) == 4 ? "single" : "double", n, HUGE_TEXT[v]);
      r.fail(2000000 + b, k, t);
    }
    r.counts[std::string("huge_started") + tn<T>()]++;
  }));
  // huge n, run to the end
  std::vector<std::pair<size_t, uint32_t>> full;
  for (size_t i = 0; i < tab.size(); i++) {
    const std::string nm = tab[i].name;
    const bool cheap = nm == "identity" || nm == "fast_inv";
    if (!th && !cheap) continue;
    full.push_back({i, 0x80000003u});
    if (th) full.push_back({i, 0xffffffffu});
  }
  all.merge(explore(full.size(), 1, [&](uint64_t b, uint64_t, Result &r) {
    const Entry<T> &f = tab[full[b].first];
    const uint32_t n = full[b].second;
    r.states++;
    r.transitions += n;
    int v = hugeRun<T>(f, n);
    if (v > 3) { r.counts["setup_failures"]++; return; }
    if (v) {
      char k[120], t[200];
      snprintf(k, sizeof k, "hugerun %s %s %u", f.name, tn<T>(), n);
      snprintf(t, sizeof t, "array %s (%s precision), n=%u: %s", f.name, sizeof(T) == 4 ? "single" : "double", n, HUGE_TEXT[v]);
      r.fail(3000000 + b, k, t);
    }
    r.counts[std::string("huge_complete") + tn<T>()]++;
  }));
}

// --- exceptions -------------------------------------------------------------------
static inline unsigned flags() { return __builtin_ia32_stmxcsr(); }
static inline void clearFlags() { __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() & ~0x3fu); }
template <class T> unsigned fpeArray(const Entry<T> &f, unsigned n, unsigned mode, uint64_t start, std::vector<T> &x, std::vector<T> &y, std::vector<T> &o, unsigned *len = nullptr) {
  // mode 0: in-domain specials, mode 1: in-domain lattice points from `start`
  const auto sp = specials<T>();
  x.clear(); y.clear();
  std::vector<T> good;
  if (mode == 0) { for (T v : sp) if (inDomain<T>(f.dom, v)) good.push_back(v); }
  for (uint64_t i = 0; x.size() < n && i < 40ull * n; i++) {
    if (mode == 0) { x.push_back(good[(i * 3 + start) % good.size()]); y.push_back(good[(i + start / good.size() * 7) % good.size()]); continue; }
    const uint64_t k = (start + i) * 0x9e3779b97f4a7c15ull;
    T a = fromBits<T>(sizeof(T) == 4 ? k >> 32 : k), b = fromBits<T>(sizeof(T) == 4 ? k & 0xffffffffu : k * 0x9e3779b97f4a7c15ull);
    if (!inDomain<T>(f.dom, a)) a = fromBits<T>(ub((T)0.9) - ((k >> 40) & 0xfffff));
    if (!std::isfinite(b)) b = 0;
    x.push_back(a); y.push_back(b);
  }
  o.assign(n, 0);
  clearFlags();
  f.array(n, x.data(), y.data(), o.data());
  if (len) *len = n;
  return flags() & (1 | 4 | 8);
}
template <class T> void fpeAll(Result &all, bool th) {
  const auto &tab = table<T>();
  const unsigned N = th ? 200 : 70;
  all.merge(explore(tab.size() * (N + 1), 1, [&](uint64_t b, uint64_t, Result &r) {
    const Entry<T> &f = tab[b / (N + 1)];
    if (!f.fast && f.dom != NFN && f.dom != ATAN2D) return;
    const unsigned n = (unsigned)(b % (N + 1));
    std::vector<T> x, y, o;
    for (unsigned mode = 0; mode < 2; mode++)
      for (unsigned s = 0; s < (mode ? (th ? 64u : 16u) : 1400u); s++) {
        r.states++;
        r.transitions += n;
        const uint64_t st = mode ? (uint64_t)s * 100000 + n : s;
        if (unsigned fl = fpeArray<T>(f, n, mode, st, x, y, o)) {
          char k[120], t[200];
          snprintf(k, sizeof k, "fpe %s %s %u %u %llu", f.name, tn<T>(), n, mode, (unsigned long long)st);
          snprintf(t, sizeof t, "array %s (%s precision), n=%u on in-domain inputs raised%s%s%s", f.name, sizeof(T) == 4 ? "single" : "double", n, fl & 1 ? " invalid" : "", fl & 4 ? " divide-by-zero" : "", fl & 8 ? " overflow" : "");
          r.fail(b, k, t);
        }
      }
    r.counts[std::string("fpe_arrays") + tn<T>()]++;
  }));
}

template <class T> int replay(int c, char **v) {
  const std::string mode = v[2], fn = v[3];
  for (const auto &f : table<T>())
    if (fn == f.name) {
      auto u = [&](int i) { return (unsigned)strtoull(i < c ? v[i] : "0", nullptr, 10); };
      std::string t;
      bool bad = false;
      if (mode == "same") { Work<T> w; Alphabet<T> A; bad = !runCfg<T>(f, {u(5), u(6), u(7), (int)u(8), u(9), u(10), u(11)}, A, w, &t); }
      if (mode == "mem") bad = !footprint<T>(f, u(5), u(6), u(7), u(8), &t);
      if (mode == "huge") { int k = huge<T>(f, u(5), 70000); bad = k >= 1 && k <= 3; }
      if (mode == "hugerun") { int k = hugeRun<T>(f, u(5)); bad = k >= 1 && k <= 3; }
      if (mode == "fpe") { std::vector<T> x, y, o; bad = fpeArray<T>(f, u(5), u(6), strtoull(v[7], nullptr, 10), x, y, o); }
      printf("%s\n%s\n", t.c_str(), bad ? "VIOLATED" : "HELD");
      return bad;
    }
  return 2;
}

int main(int c, char **v) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  const std::string mode = v[1];
  if (mode == "replay") return v[4][0] == 'f' ? replay<float>(c, v) : replay<double>(c, v);
  const bool th = !strcmp(v[2], "thorough");
  Result all;
  if (mode == "same") { sameAll<float>(all, th); sameAll<double>(all, th); if (th) fullFloat(all); }
  else if (mode == "mem") { memAll<float>(all, th); memAll<double>(all, th); }
  else if (mode == "fpe") { fpeAll<float>(all, th); fpeAll<double>(all, th); }
  print(all);
  return 0;
}
