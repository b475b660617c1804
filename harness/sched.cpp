// Systematic exploration of thread interleavings on the real code.
// The code under test is compiled with -fsanitize=thread, but linked with this file
// instead of the sanitizer run time: every memory access of it calls into the scheduler
// below, which lets exactly one thread run at a time and decides at each access whether
// to switch. All schedules with up to a bounded number of preemptions are executed.
//   sched run <tier> [same]   (same: threads call the same function, or scalar functions)
//   sched replay <argument set> <opA> <opB> [<opC>]
#include "mc.hpp"
#include "sched_ops.hpp"
#include <condition_variable>
#include <iostream>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;

// --- scheduler ------------------------------------------------------------------
static const int MAXT = 3, NSET = 5;
#ifdef MC_OBJECTS
static const uint64_t SPIN = 2000000;         // the calls are long
extern "C" char __data_start, _end;
#else
static const uint64_t SPIN = 20000;
#endif
struct Access { uintptr_t a; uint32_t n; bool w; };
static thread_local int ME = -1;              // index of a scheduled thread
static std::atomic<int> BATON(-1);            // who may run
static int NT;                                // threads in this execution
static bool DONE[MAXT];
static uint64_t EVENTS[MAXT];                 // events so far
static uint64_t RUNLEN;                       // events since the last switch
static std::vector<std::pair<uint64_t, int>> PLAN;  // at global event number -> switch to thread
static size_t PLANPOS;
static uint64_t CLOCK;
static std::vector<Access> *REC;              // recording of accesses
static uint64_t FORCED;

static void futexWait(std::atomic<int> *f, int v) { syscall(SYS_futex, (int *)f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(std::atomic<int> *f) { syscall(SYS_futex, (int *)f, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0); }
static void waitFor(int me) {
  for (int spin = 0;; spin++) {
    int b = BATON.load(std::memory_order_acquire);
    if (b == me) return;
    if (spin > 300) futexWait(&BATON, b);
    else __builtin_ia32_pause();
  }
}
static void give(int t) { BATON.store(t, std::memory_order_release); futexWake(&BATON); }
static int other(int me) { for (int k = 1; k <= NT; k++) { int t = (me + k) % NT; if (t != me && !DONE[t]) return t; } return -1; }
static void switchTo(int t) { RUNLEN = 0; int me = ME; give(t); waitFor(me); }
// a thread that cannot go on (lock held by another) lets others run
static void blockYield() { if (ME < 0) { sched_yield(); return; } int t = other(ME); if (t >= 0) { FORCED++; switchTo(t); } }
static void event(uintptr_t a, uint32_t n, bool w) {
  if (ME < 0) return;
  if (REC) REC->push_back({a, n, w});
  EVENTS[ME]++;
  const uint64_t now = CLOCK++;
  if (PLANPOS < PLAN.size() && PLAN[PLANPOS].first == now) {
    int t = PLAN[PLANPOS++].second;
    if (t == ME || DONE[t]) t = other(ME);
    if (t >= 0) { switchTo(t); return; }
  }
  if (++RUNLEN > SPIN) blockYield();  // spinning on something another thread has to provide
}

// --- instrumentation entry points ---------------------------------------------------
typedef unsigned __int128 u128;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { event(0, 0, false); }
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { event((uintptr_t)p, n, false); } \
  void __tsan_write##n(void *p) { event((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { event((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { event((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { event((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { event((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { event((uintptr_t)p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *p) { event((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { event((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read_write##n(void *p) { event((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { event((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { event((uintptr_t)p, n, true); }
void __tsan_vptr_update(void **p, void *) { event((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { event((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { event((uintptr_t)s, n, false); event((uintptr_t)d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { event((uintptr_t)s, n, false); event((uintptr_t)d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { event((uintptr_t)d, n, true); return memset(d, c, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *p, int) { event((uintptr_t)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { event((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { event((uintptr_t)p, sizeof(T), true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { event(0, 0, false); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
// static initialisation
int __cxa_guard_acquire(uint64_t *g) {
  event((uintptr_t)g, 8, true);
  for (;;) {
    uint8_t *b = (uint8_t *)g;
    if (b[0]) return 0;
    if (!__atomic_exchange_n(b + 1, 1, 5)) { if (b[0]) { b[1] = 0; return 0; } return 1; }
    blockYield();
  }
}
void __cxa_guard_release(uint64_t *g) { event((uintptr_t)g, 8, true); uint8_t *b = (uint8_t *)g; __atomic_store_n(b, 1, 5); __atomic_store_n(b + 1, 0, 5); }
void __cxa_guard_abort(uint64_t *g) { ((uint8_t *)g)[1] = 0; }
// locks (linked with --wrap)
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (ME < 0) return __real_pthread_mutex_lock(m);
  event((uintptr_t)m, 8, true);
  while (pthread_mutex_trylock(m)) blockYield();
  return 0;
}
}

// --- executions ------------------------------------------------------------------
struct Buf { alignas(64) unsigned char in[64], in2[64], out[64]; };
enum { CALLS = 2 };  // per thread, the second with the arguments of the next thread
static Buf BUF[MAXT][CALLS];
static const SchedOp *OPS[MAXT];
static std::atomic<int> GEN(0), LIVE(0);

static void fill(const SchedOp &o, int variant, Buf &b) {
  // variant = 3 * argument set + thread
  static const double INF = std::numeric_limits<double>::infinity(), QNAN = std::numeric_limits<double>::quiet_NaN();
  static const double v[NSET * 3][5] = {
      {0.3, -0.7, 0.9, 0.11, 1}, {0.62, 0.05, -0.44, 0.8, -0.2}, {-0.5, 0.99, 0.66, -0.01, 0.34},
      {2.5, 30, -4, 1e-3, 700}, {100, 5.5, 0.7, 12.25, -80}, {-7.1, 1e-9, 3, 4000, 0.25},
      {1e-5, 0.9, 2, -1e-12, 50}, {0.9, 1e-5, 1234, 0.4, -0.6}, {50, -0.2, 1e-7, 0.64, 8},
      {0.8, 0, QNAN, INF, 0.3}, {0.0, 0.41, -INF, 1e-310, 6}, {1e-310, -0.0, 0.5, 1e300, 88},
      {0.3, 0.3000000001, -0.3, 0.3, 0.30001}, {0.3000000001, 0.3, 0.3, -0.3, 0.3}, {-0.3, 0.3, 0.3, 0.3, 0.31}};
  const int variant2 = variant / 3 * 3 + (variant + 1) % 3;
  memset(&b, 0, sizeof b);
  for (int i = 0; i < 5; i++) {
    const double x = v[variant][i], y = v[variant2][(i + 2) % 5];
    if (o.dbl) { ((double *)b.in)[i] = x; ((double *)b.in2)[i] = y; } else { ((float *)b.in)[i] = (float)x; ((float *)b.in2)[i] = (float)y; }
  }
}

static void *worker(void *arg) {
  const int me = (int)(intptr_t)arg;
  int gen = 0;
  for (;;) {
    while (GEN.load() == gen) futexWait(&GEN, gen);
    gen = GEN.load();
    if (gen < 0) return nullptr;
    if (me < NT) {
      ME = me;
      waitFor(me);
      for (Buf &b : BUF[me]) OPS[me]->run(b.in, b.in2, b.out);
      ME = -1;
      DONE[me] = true;
      RUNLEN = 0;
      int t = -1;
      for (int k = 0; k < NT; k++) if (!DONE[k]) { t = k; break; }
      give(t < 0 ? 100 : t);
    }
    LIVE.fetch_sub(1);
    futexWake(&LIVE);
  }
}

// runs one schedule, starting with thread `start`; returns total events
static uint64_t execute(int start) {
  for (int i = 0; i < MAXT; i++) { DONE[i] = false; EVENTS[i] = 0; }
  CLOCK = 0; RUNLEN = 0; PLANPOS = 0;
  LIVE = MAXT;
  BATON.store(start);
  GEN.fetch_add(1);
  futexWake(&GEN);
  for (;;) { int l = LIVE.load(); if (l == 0) break; futexWait(&LIVE, l); }
  return CLOCK;
}

struct Shared { std::atomic<uint64_t> states, transitions, schedules, fails, conflicts, next, events, stuck; char text[16][320]; int ops[16][4]; unsigned char base[512][NSET * 3][64]; };
static Shared *SH;
#ifdef MC_OBJECTS
// objects live on heap and stack; what threads can share without being told is static
static bool privateAddr(uintptr_t a) { return a < (uintptr_t)&__data_start || a >= (uintptr_t)&_end || (a >= (uintptr_t)BUF && a < (uintptr_t)BUF + sizeof BUF); }
#else
static bool privateAddr(uintptr_t a) { return a == 0 || (a >= (uintptr_t)BUF && a < (uintptr_t)BUF + sizeof BUF); }
#endif

static bool outOk(const Buf &b, int op, int variant) {
  const SchedOp &o = SCHED_OPS[op];
  for (unsigned i = 0; i < o.n; i++) {
    if (o.dbl) { double x = ((const double *)b.out)[i], y = ((double *)SH->base[op][variant])[i]; if (!same(x, y)) return false; }
    else { float x = ((const float *)b.out)[i], y = ((float *)SH->base[op][variant])[i]; if (!same(x, y)) return false; }
  }
  return true;
}

// All schedules of the given operations within the preemption bound.
// true if every one gave the results of the calls alone
static bool explorePair(const std::vector<int> &job, int bound) {
  const int set = job[0];
  const std::vector<int> ops(job.begin() + 1, job.end());
  NT = (int)ops.size();
  auto prep = [&] { for (int t = 0; t < NT; t++) { OPS[t] = &SCHED_OPS[ops[t]]; for (int q = 0; q < CALLS; q++) fill(*OPS[t], set * 3 + (t + q) % 3, BUF[t][q]); } };
  std::string what;
  auto run = [&](int start) -> bool {
    prep();
    uint64_t ev = execute(start);
    SH->schedules++;
    SH->events += ev;
    for (int t = 0; t < NT; t++)
      for (int q = 0; q < CALLS; q++) {
        if (outOk(BUF[t][q], ops[t], set * 3 + (t + q) % 3)) continue;
        char b[300];
        std::string pl;
        for (auto &p : PLAN) pl += " @" + std::to_string(p.first) + "->T" + std::to_string(p.second);
        snprintf(b, sizeof b, "thread %d (%s, call %d) got a different result in the schedule start T%d%s", t, SCHED_OPS[ops[t]].name, q, start, pl.c_str());
        what = b;
        return false;
      }
    return true;
  };
  auto fail = [&] {
    uint64_t q = SH->fails++;
    if (q < 16) {
      std::string n;
      for (int o : ops) n += std::string(n.empty() ? "" : " || ") + SCHED_OPS[o].name;
      snprintf(SH->text[q], sizeof SH->text[q], "%s: %s", n.c_str(), what.c_str());
      for (int t = 0; t < 4; t++) SH->ops[q][t] = t < (int)job.size() ? job[t] : -1;
    }
    return false;
  };
  // serial executions, recording the accesses of each thread
  std::vector<std::vector<Access>> rec(NT);
  uint64_t len = 0;
  for (int s = 0; s < NT; s++) {
    PLAN.clear();
    std::vector<Access> a;
    REC = &a;
    bool ok = run(s);
    REC = nullptr;
    len = std::max(len, CLOCK);
    // the accesses of thread s come first in this execution
    a.resize(std::min<size_t>(a.size(), EVENTS[s]));
    rec[s] = a;
    SH->transitions += CLOCK;
    if (!ok) return fail();
  }
  bool conflict = false;
  for (int s = 0; s < NT && !conflict; s++)
    for (int t = 0; t < s && !conflict; t++)
      for (auto &x : rec[s]) {
        if (privateAddr(x.a)) continue;
        for (auto &y : rec[t]) if (!privateAddr(y.a) && (x.w || y.w) && x.a < y.a + y.n && y.a < x.a + x.n) { conflict = true; break; }
        if (conflict) break;
      }
  if (conflict) SH->conflicts++;
  // without conflicting accesses all interleavings are equivalent; one preemption at
  // every access is executed nevertheless
  const int depth = conflict ? bound : 1;
  for (int s = 0; s < NT; s++)
    for (uint64_t i = 1; i < len; i++)
      for (int t = 0; t < NT; t++) {
        if (t == s) continue;
        PLAN = {{i, t}};
        if (!run(s)) return fail();
        SH->transitions += CLOCK;
        const uint64_t l2 = CLOCK;
        if (PLANPOS == 0) break;
        if (depth >= 2)
          for (uint64_t j = i + 1; j < l2; j++)
            for (int u = 0; u < NT; u++) {
              if (u == t) continue;
              PLAN = {{i, t}, {j, u}};
              if (!run(s)) return fail();
              SH->transitions += CLOCK;
              const uint64_t l3 = CLOCK;
              if (depth >= 3 && NT == 2)
                for (uint64_t k = j + 1; k < l3; k++) {
                  PLAN = {{i, t}, {j, u}, {k, 1 - u}};
                  if (!run(s)) return fail();
                  SH->transitions += CLOCK;
                }
            }
      }
  return true;
}

static void startWorkers() {
  for (int t = 0; t < MAXT; t++) { pthread_t p; pthread_create(&p, nullptr, worker, (void *)(intptr_t)t); }
}

static void baseline() {  // each operation alone in a fresh process
  for (unsigned o = 0; o < SCHED_NOPS; o++)
    for (int v = 0; v < 3 * NSET; v++) {
      pid_t p = fork();
      if (p == 0) {
        Buf b;
        fill(SCHED_OPS[o], v, b);
        SCHED_OPS[o].run(b.in, b.in2, b.out);
        memcpy(SH->base[o][v], b.out, 64);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
    }
}

int main(int c, char **v) {
#ifdef MC_OBJECTS
  static struct : std::streambuf { int overflow(int ch) override { return ch; } } drop;
  std::cout.rdbuf(&drop);
#endif
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (SCHED_NOPS > 512) return 2;
  baseline();
  const std::string mode = v[1];
  auto child = [&](std::vector<std::vector<int>> jobs, int bound) {
    // false: some schedule gave wrong results, or the run crashed or hung
    pid_t p = fork();
    if (p == 0) {
      alarm(300);
      startWorkers();
      for (auto &j : jobs) if (!explorePair(j, bound)) _exit(1);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 0;
    SH->stuck++;
    uint64_t q = SH->fails++;
    if (q < 16) {
      snprintf(SH->text[q], sizeof SH->text[q], "%s || ...: crashed or made no progress", SCHED_OPS[jobs[0][1]].name);
      for (int t = 0; t < 4; t++) SH->ops[q][t] = t < (int)jobs[0].size() ? jobs[0][t] : -1;
    }
    return false;
  };
  if (mode == "replay") {
    std::vector<int> ops;
    for (int i = 2; i < c; i++) ops.push_back(atoi(v[i]));
    bool bad = !child({ops}, 2);
    printf("%s\n%s\n", SH->text[0], bad ? "VIOLATED" : "HELD");
    return bad;
  }
  const bool th = !strcmp(v[2], "thorough"), same = c > 3 && !strcmp(v[3], "same");
  std::vector<std::vector<int>> jobs;
  const int n = (int)SCHED_NOPS;
#ifdef MC_OBJECTS
  const uint64_t BLK = 4;
  // uses with files are long; quick leaves their triples, and mixed pairs in single precision, to thorough
  auto file = [](int a) { return strstr(SCHED_OPS[a].name, "File") || strstr(SCHED_OPS[a].name, "comparison"); };
  for (int q = 0; q < (th ? NSET : 1); q++) {
    for (int a = 0; a < n; a++) if (th || !file(a)) jobs.push_back({q, a, a, a});
    for (int a = 0; a < n; a++) for (int b = a; b < n; b++) if (th || a == b || (SCHED_OPS[a].dbl && SCHED_OPS[b].dbl)) jobs.push_back({q, a, b});
  }
  for (int q = 1; q < 3 && !th; q++) for (int a = 0; a < n; a++) jobs.push_back({q, a, a});
#else
  const uint64_t BLK = 64;
  for (int q = 0; q < NSET; q++) {
    for (int a = 0; a < n; a++) jobs.push_back({q, a, a, a});
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a == b || (same ? (th || q == 0) && SCHED_OPS[a].n < 3 && SCHED_OPS[b].n < 3 : th || q == 0 || q == 3)) jobs.push_back({q, a, b});
    if (th && !same) for (int a = 0; a < n; a++) for (int d = 1; d < 12; d++) jobs.push_back({q, a, (a + d) % n, (a + 3 * d) % n});
  }
#endif
  const unsigned W = std::max(1u, threads() * 3 / 4);
  std::vector<pid_t> ws;
  for (unsigned w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      // every block of jobs runs in a process of its own; after a failure the block is
      // continued behind the failing job
      for (;;) {
        const uint64_t b = SH->next.fetch_add(BLK);
        if (b >= jobs.size() || SH->fails >= 8) break;
        for (uint64_t i = b; i < std::min<uint64_t>(jobs.size(), b + BLK) && SH->fails < 8;) {
          std::vector<std::vector<int>> blk(jobs.begin() + i, jobs.begin() + std::min<uint64_t>(jobs.size(), b + BLK));
          if (child(blk, th ? 3 : 2)) break;
          i += 8;
        }
        SH->states += BLK;
      }
      _exit(0);
    }
    ws.push_back(p);
  }
  for (pid_t p : ws) { int st; waitpid(p, &st, 0); }
  Result r;
  r.states = SH->schedules;
  r.transitions = SH->events;
  r.failures = SH->fails;
  for (uint64_t q = 0; q < std::min<uint64_t>(8, SH->fails); q++) {
    std::string k = std::to_string(SH->ops[q][0]);
    for (int t = 1; t < 4; t++) if (SH->ops[q][t] >= 0) k += " " + std::to_string(SH->ops[q][t]);
    r.first.push_back({q, k, SH->text[q]});
  }
  r.counts["operations"] = SCHED_NOPS;
  r.counts["thread_sets"] = jobs.size();
  r.counts["conflicting_thread_sets"] = SH->conflicts;
  r.counts["crashed_or_stuck"] = SH->stuck;
#ifdef MC_OBJECTS
  r.samples = {"0 0 2", "1 8 8", "2 10 10 10"};
#else
  r.samples = {"0 0 1", "1 4 31", "2 5 5 5"};
#endif
  print(r, SH->fails == 0);
  return 0;
}
