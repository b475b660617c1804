// Exhaustive exploration of call histories.
//   history run <tier>
//   history replay <kind> <i> <j> [k]
// A letter is a function with a fixed argument. The expected result of a letter is
// the one it gives as the very first call of a fresh process. Explored: every pair of
// letters in a fresh process, every triple as a window of one long history per first
// letter. With a dense alphabet of arguments: every ordered pair of arguments of one
// function, and every ordered pair of functions over a thinned alphabet.
#include "fntable.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Out { uint64_t h; uint32_t ctl; };
struct Letter { std::string name; std::function<uint64_t()> f; };
static std::vector<Letter> LET;

static uint32_t control() {
  uint16_t cw;
  __asm__ volatile("fnstcw %0" : "=m"(cw));
  return (__builtin_ia32_stmxcsr() & ~0x3fu) | (uint32_t)cw << 16;
}
template <class T> inline uint64_t canon(T x) { return x != x ? 0x7ff8dead : (uint64_t)ub(x); }
template <class T> uint64_t hashArr(const T *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ canon(p[i])) * 1099511628211ull; return h; }

template <class T> std::vector<T> args() {
  // neighbours that agree after rounding, after dropping the sign or low bits, and far ones
  const T a = (T)0.3;
  std::vector<T> v = {a, fromBits<T>(ub(a) + 1), (T)-0.3, (T)0.9, (T)2.5, (T)30, (T)0, std::numeric_limits<T>::quiet_NaN()};
  if (sizeof(T) == 8) v.push_back((T)(0.3 + 1e-10));
  return v;
}

template <class T> void letters() {
  for (const auto &e : table<T>()) {
    if (e.s && (e.fast || e.dom == ISQRT || e.dom == INV))
      for (T x : args<T>()) LET.push_back({std::string(e.name) + tn<T>() + "(" + hexf(x) + ")", [&e, x] { return canon(e.s(x)); }});
    if (e.s2 && e.fast) {
      const T p[][2] = {{(T)0.3, (T)0.7}, {(T)0.7, (T)0.3}, {(T)-0.3, (T)0.7}, {(T)0.3, (T)-0.7}, {0, 0}, {(T)0.3, (T)0.70001}};
      for (auto &q : p) { T y = q[0], x = q[1]; LET.push_back({std::string(e.name) + tn<T>() + "(" + hexf(y) + "," + hexf(x) + ")", [&e, x, y] { return canon(e.s2(y, x)); }}); }
    }
    const auto sp = specials<T>();
    for (unsigned n : {1u, 9u})
      LET.push_back({std::string(e.name) + tn<T>() + "[" + std::to_string(n) + "]", [&e, n, sp] {
                       T x[16], y[16], o[16];
                       for (unsigned i = 0; i < n; i++) { x[i] = sp[(i * 4 + 2 + n) % sp.size()]; y[i] = sp[(i + n) % sp.size()]; }
                       e.array(n, x, y, o);
                       return hashArr(o, n);
                     }});
  }
}
static NOI void scd(double x, double &s, double &c) { vdt::fast_sincos(x, s, c); }
static NOI void scf(float x, float &s, float &c) { vdt::fast_sincosf(x, s, c); }

static void setup() {
  letters<float>();
  letters<double>();
  for (double x : args<double>()) LET.push_back({"sincosd(" + hexf(x) + ")", [x] { double r[2]; scd(x, r[0], r[1]); return hashArr(r, 2); }});
  for (float x : args<float>()) LET.push_back({"sincosf(" + hexf(x) + ")", [x] { float r[2]; scf(x, r[0], r[1]); return hashArr(r, 2); }});
}

// dense alphabets: one entry per scalar function, arguments by index
struct Fn { std::string name; std::function<uint64_t(size_t)> at; std::function<std::string(size_t)> text; };
static std::vector<Fn> FN;
static const size_t DENSE = 1600;
template <class T> const std::vector<T> &dense() {
  static std::vector<T> v;
  if (v.empty()) {
    const int MB = sizeof(T) == 4 ? 23 : 52, TOP = sizeof(T) == 4 ? 31 : 63, BIAS = sizeof(T) == 4 ? 127 : 1023, EM = 2 * BIAS + 1;
    v = args<T>();
    for (T x : specials<T>()) v.push_back(x);
    // the exponents of ordinary arguments with several mantissas, the others once
    for (int e = 0; e < EM; e++) {
      const int d = std::abs(e - BIAS), n = d <= 13 ? 12 : sizeof(T) == 4 || d % 16 == 0 || d > BIAS - 4 ? 1 : 0;
      for (int k = 0; k < n; k++) {
        const uint64_t m = k == 0 ? 0x5bd1e995ull << (MB - 33 > 0 ? MB - 33 : 0) & ((1ull << MB) - 1) : k == 1 ? (1ull << MB) - 1 : (k * 0x9e3779b97f4a7c15ull) >> (64 - MB);
        for (uint64_t s = 0; s < 2; s++) v.push_back(fromBits<T>(s << TOP | (uint64_t)e << MB | m));
      }
    }
    // every class of quadrant numbers by its low six bits and its magnitude
    for (int k = 0; v.size() < DENSE; k++) v.push_back((T)(((k < 64 ? k : (k * 37) % 6366) + (k % 3) * 0.4 + 0.05) * 0.7853981633974483 * (k % 5 ? 1 : -1)));
    v.resize(DENSE);
  }
  return v;
}
template <class T> void denseFns() {
  for (const auto &e : table<T>()) {
    const std::string n = std::string(e.name) + tn<T>();
    if (e.s && (e.fast || e.dom == ISQRT || e.dom == INV))
      FN.push_back({n, [&e](size_t i) { return canon(e.s(dense<T>()[i])); }, [](size_t i) { return hexf(dense<T>()[i]); }});
    if (e.s2 && e.fast)
      FN.push_back({n, [&e](size_t i) { return canon(e.s2(dense<T>()[i / 40 * 39 % DENSE], dense<T>()[i % 40 * 41 % DENSE])); },
                    [](size_t i) { return hexf(dense<T>()[i / 40 * 39 % DENSE]) + "," + hexf(dense<T>()[i % 40 * 41 % DENSE]); }});
  }
}

// runs body in a child, which returns through shared memory
template <class B> bool inChild(void *, B body) {
  pid_t p = fork();
  if (p == 0) { body(); _exit(0); }
  int st;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

struct Fail { uint64_t kind, i, j, k, got, want; };
struct Shared { std::atomic<uint64_t> states, transitions, fails, crashes; Fail first[64]; Out base[4096]; uint64_t dense[128][DENSE]; };
static Shared *SH;

static bool good(size_t i, uint64_t h, uint32_t ctl) { return h == SH->base[i].h && ctl == SH->base[i].ctl; }
static void report(uint64_t kind, uint64_t i, uint64_t j, uint64_t k, uint64_t got, uint64_t want) {
  uint64_t q = SH->fails++;
  if (q < 64) SH->first[q] = {kind, i, j, k, got, want};
}

static void pairIn(size_t i, size_t j) {  // in a fresh process
  LET[i].f();
  uint64_t h = LET[j].f();
  SH->transitions += 2;
  if (!good(j, h, control())) report(2, i, j, 0, h, SH->base[j].h);
}
// one long history containing every window (i, j, k)
static bool windows(size_t i, uint64_t &a, uint64_t &b, uint64_t &c, uint64_t &got) {
  const size_t L = LET.size();
  uint64_t n = 0;
  for (size_t j = 0; j < L; j++)
    for (size_t k = 0; k < L; k++) {
      const size_t seq[3] = {i, j, k};
      for (size_t q : seq) {
        uint64_t h = LET[q].f();
        n++;
        if (!good(q, h, control())) { a = j; b = k; c = q; got = h; SH->transitions += n; return false; }
      }
    }
  SH->transitions += n;
  return true;
}

// all ordered pairs of arguments of functions f and g, thinned by the given steps
static void densePairs(size_t f, size_t g, size_t si, size_t sj) {
  uint64_t n = 0;
  for (size_t i = f % si; i < DENSE; i += si) {
    for (size_t j = g % sj; j < DENSE; j += sj) {
      FN[f].at(i);
      const uint64_t h = FN[g].at(j);
      n++;
      if (h != SH->dense[g][j]) { report(4, f * DENSE + i, g * DENSE + j, 0, h, SH->dense[g][j]); SH->states += n; SH->transitions += 2 * n; return; }
    }
  }
  SH->states += n;
  SH->transitions += 2 * n;
}
static bool densePair(uint64_t a, uint64_t b) {
  return inChild(nullptr, [&] { SH->dense[b / DENSE][b % DENSE] = FN[b / DENSE].at(b % DENSE); }) && inChild(nullptr, [&] {
    FN[a / DENSE].at(a % DENSE);
    if (FN[b / DENSE].at(b % DENSE) != SH->dense[b / DENSE][b % DENSE]) report(4, a, b, 0, 0, 0);
  }) && !SH->fails;
}

int main(int c, char **v) {
  setup();
  denseFns<float>();
  denseFns<double>();
  dense<float>();
  dense<double>();
  if (FN.size() > 128) return 2;
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const size_t L = LET.size();
  if (L > 4096) return 2;
  const uint32_t ctl0 = control();
  for (size_t i = 0; i < L; i++)
    if (!inChild(nullptr, [&] { SH->base[i].h = LET[i].f(); SH->base[i].ctl = ctl0; if (control() != ctl0) report(1, i, 0, 0, control(), ctl0); })) SH->crashes++;
  const std::string mode = v[1];
  if (mode == "replay") {
    uint64_t i = atoll(v[3]), j = c > 4 ? atoll(v[4]) : 0, a, b, q, g;
    bool bad = false;
    if (!strcmp(v[2], "1")) bad = SH->fails != 0;
    if (!strcmp(v[2], "2")) bad = !inChild(nullptr, [&] { pairIn(i, j); }) || SH->fails != 0;
    if (!strcmp(v[2], "3")) bad = !inChild(nullptr, [&] { if (!windows(i, a, b, q, g)) report(3, i, a, b, g, 0); }) || SH->fails != 0;
    if (!strcmp(v[2], "4")) {
      bad = !densePair(i, j);
      // the pair alone does not show it: repeat the history it was found in
      if (!bad) {
        const size_t f = i / DENSE, g = j / DENSE;
        for (size_t q = 0; q < DENSE; q++) inChild(nullptr, [&] { SH->dense[g][q] = FN[g].at(q); });
        bad = !inChild(nullptr, [&] { densePairs(f, g, f == g ? 1 : 7, f == g ? 1 : 67); }) || SH->fails != 0;
      }
    }
    puts(bad ? "VIOLATED" : "HELD");
    return bad;
  }
  const bool th = !strcmp(v[2], "thorough");
  SH->states = L;
  // workers are processes, so that every pair starts from a process without history
  const unsigned W = threads();
  std::vector<pid_t> ws;
  std::fflush(stdout);
  auto *next = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (unsigned w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      for (;;) {
        uint64_t i = (*next)++;
        if (i >= L) break;
        for (size_t j = 0; j < L; j++) { SH->states++; if (!inChild(nullptr, [&] { pairIn(i, j); })) { SH->crashes++; report(2, i, j, 0, 0, 0); } }
        if (!inChild(nullptr, [&] { uint64_t a, b, q, g; if (!windows(i, a, b, q, g)) report(3, i, a, b, g, SH->base[q].h); })) { SH->crashes++; report(3, i, 0, 0, 0, 0); }
        SH->states += L * L;
        if (th) {
          // long runs of one letter before another
          inChild(nullptr, [&] {
            for (size_t j = 0; j < L; j++) {
              for (int r = 0; r < 3000; r++) LET[i].f();
              uint64_t h = LET[j].f();
              SH->transitions += 3001;
              if (!good(j, h, control())) { report(3, i, j, 0, h, SH->base[j].h); break; }
            }
          });
          SH->states += L;
        }
      }
      _exit(0);
    }
    ws.push_back(p);
  }
  auto join = [&] { for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) SH->crashes++; } ws.clear(); };
  join();
  auto spread = [&](uint64_t n, std::function<void(uint64_t)> body) {
    *next = 0;
    for (unsigned w = 0; w < W; w++) {
      pid_t p = fork();
      if (p == 0) { for (uint64_t i; (i = (*next)++) < n;) body(i); _exit(0); }
      ws.push_back(p);
    }
    join();
  };
  const uint64_t F = FN.size();
  spread(F * DENSE, [&](uint64_t q) { if (!inChild(nullptr, [&] { SH->dense[q / DENSE][q % DENSE] = FN[q / DENSE].at(q % DENSE); })) SH->crashes++; });
  spread(F * F, [&](uint64_t q) {
    const uint64_t f = q / F, g = q % F, s0 = th ? 3 : 7, s1 = th ? 19 : 67;
    if (!inChild(nullptr, [&] { densePairs(f, g, f == g ? 1 : s0, f == g ? 1 : s1); })) SH->crashes++;
  });
  Result r;
  r.states = SH->states;
  r.transitions = SH->transitions;
  r.failures = SH->fails;
  for (uint64_t q = 0; q < std::min<uint64_t>(64, SH->fails); q++) {
    const Fail &f = SH->first[q];
    char k[80], t[500];
    snprintf(k, sizeof k, "%llu %llu %llu", (unsigned long long)f.kind, (unsigned long long)f.i, (unsigned long long)f.j);
    if (f.kind == 4) {
      snprintf(t, sizeof t, "after %s(%s): %s(%s) gives %016llx, in a fresh process %016llx", FN[f.i / DENSE].name.c_str(), FN[f.i / DENSE].text(f.i % DENSE).c_str(), FN[f.j / DENSE].name.c_str(),
               FN[f.j / DENSE].text(f.j % DENSE).c_str(), (unsigned long long)f.got, (unsigned long long)f.want);
      if (r.first.size() < 4) r.first.push_back({f.i, k, t});
      continue;
    }
    snprintf(t, sizeof t, "%s: result or control state of %s differs from a fresh process (%016llx, expected %016llx)",
             f.kind == 1 ? "first call" : f.kind == 2 ? ("after " + LET[f.i].name).c_str() : ("in the history of all windows starting with " + LET[f.i].name).c_str(),
             LET[f.kind == 1 ? f.i : f.j].name.c_str(), (unsigned long long)f.got, (unsigned long long)f.want);
    if (r.first.size() < 4) r.first.push_back({f.i, k, t});
  }
  r.counts["letters"] = L;
  r.counts["dense_letters"] = F * DENSE;
  r.counts["crashes"] = SH->crashes;
  for (size_t i = 0; i < 6; i++) r.samples.push_back("2 " + std::to_string(i * 37 % L) + " " + std::to_string(i * 101 % L));
  for (size_t i = 0; i < 6; i++) r.samples.push_back("4 " + std::to_string(i * 7919 % (F * DENSE)) + " " + std::to_string(i * 104729 % (F * DENSE)));
  print(r);
  return 0;
}
