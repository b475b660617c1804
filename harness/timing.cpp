// C28: timer and mean time per call, on a virtual clock.
#include "diag.hpp"
#include "vdtdiag_fcnPerformance.h"

static uint64_t nowNs = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept(true) {
  (void)id;
  ts->tv_sec = nowNs / 1000000000ull;
  ts->tv_nsec = nowNs % 1000000000ull;
  return 0;
}

namespace diag {
void cleanup() {}

const vector<uint64_t> &readings(bool thorough) {
  static vector<uint64_t> v;
  if (!v.empty()) return v;
  std::set<uint64_t> s;
  vector<uint64_t> secs = {0, 1, 2, 3, 4, 5, 9, 10, 59, 60, 999, 1000, 65535, 65536, 2147483646, 2147483647, 2147483648u, 2147483649u, 4294967295u, 4294967296ull, 4294967297ull, 8000000000ull};
  vector<uint64_t> ns = {0, 1, 2, 3, 9, 10, 999, 1000, 1001, 499999999, 500000000, 500000001, 999999, 1000000, 1000001, 999999990, 999999997, 999999998, 999999999, 16777216, 16777217, 134217728, 536870911, 536870912, 268435455};
  for (uint64_t n = 1; n < 1000000000; n *= (thorough ? 2 : 5)) ns.push_back(n), ns.push_back(1000000000 - n);
  for (uint64_t a : secs) for (uint64_t n : ns) s.insert(a * 1000000000ull + n);
  v.assign(s.begin(), s.end());
  return v;
}

string elapsed(uint64_t a, uint64_t b) {
  vdth::timer t;
  nowNs = a;
  t.start();
  nowNs = b;
  t.stop();
  const uint64_t e = t.get_elapsed_time();
  if (e != b - a) return "elapsed " + str(e) + " ns between readings " + str(a) + " and " + str(b);
  return "";
}
string again(uint64_t a, uint64_t b) {   // one timer used twice, printed
  vdth::timer t;
  nowNs = a;
  t.start();
  nowNs = b;
  t.stop();
  if (t.get_elapsed_time() != b - a || t.get_elapsed_time() != b - a) return "elapsed changes between two enquiries";
  nowNs = b + 5;
  t.start();
  nowNs = b + 5 + (b - a);
  t.stop();
  if (t.get_elapsed_time() != b - a) return "elapsed of a reused timer is " + str(t.get_elapsed_time());
  nowNs += 1000000007;
  t.stop();
  if (t.get_elapsed_time() != b - a + 1000000007) return "elapsed after a second stop is " + str(t.get_elapsed_time());
  freshOutput();
  t.print();
  const string s = printed();
  if (s.find(" " + str(b - a + 1000000007) + " ") == string::npos) return "printed \"" + s + "\"";
  return "";
}

// ------------------------------------------------------------------------------------
// The measured function advances the clock: pass p over the inputs costs cost(p).
struct Log {
  vector<uint64_t> pattern;   // cost of pass p: pattern[p % size]
  uint64_t calls = 0, n = 0;
  vector<uint64_t> costs;     // total cost of every pass
  string bad;
} logv;
const uint64_t COST[] = {0, 1, 1000000007, 999, 3};

template <class T> void tick(uint64_t i) {
  if (i == 0) logv.costs.push_back(0);
  if (logv.costs.empty()) { logv.bad = "first pass does not start with the first input"; return; }
  const uint64_t c = logv.pattern[(logv.costs.size() - 1) % logv.pattern.size()];
  nowNs += c;
  logv.costs.back() += c;
}
template <class T> vector<T> xs(uint64_t n, int y) {
  vector<T> v;
  for (uint64_t i = 0; i < n; i++) v.push_back(T(i) * (y ? T(-2) : T(3)) + T(0.5));
  return v;
}
template <class T> void scalarCall(T x, T y, bool two) {
  const uint64_t i = logv.calls++ % logv.n;
  if (!(x == T(i) * T(3) + T(0.5)) || (two && !(y == T(i) * T(-2) + T(0.5)))) logv.bad = "call " + str(logv.calls - 1) + " has unexpected arguments";
  tick<T>(i);
}
template <class T> T s1(T x) { scalarCall<T>(x, x, false); return x + 1; }
template <class T> T s2(T x, T y) { scalarCall<T>(x, y, true); return x - y; }
template <class T> void arrayCall(uint32_t n, T *x, T *y) {
  logv.calls++;
  if (n != logv.n) { logv.bad = "array function called with length " + str(n); return; }
  for (uint32_t i = 0; i < n; i++) {
    if (!(x[i] == T(i) * T(3) + T(0.5)) || (y && !(y[i] == T(i) * T(-2) + T(0.5)))) logv.bad = "array element " + str(i) + " is unexpected";
    tick<T>(i);
  }
}
template <class T> void v1(uint32_t n, T *x, T *o) { arrayCall<T>(n, x, nullptr); for (uint32_t i = 0; i < n; i++) o[i] = x[i]; }
template <class T> void v2(uint32_t n, T *x, T *y, T *o) { arrayCall<T>(n, x, y); for (uint32_t i = 0; i < n; i++) o[i] = y[i]; }

template <class T> fcnPerformance<T> *perf(const string &form, const vector<T> &x, const vector<T> &y, uint32_t reps) {
  if (form == "s1") return new fcnPerformance<T>("Fn", x, std::function<T(T)>(s1<T>), reps);
  if (form == "s2") return new fcnPerformance<T>("Fn", x, y, std::function<T(T, T)>(s2<T>), reps);
  if (form == "v1") return new fcnPerformance<T>("Fn", x, std::function<void(uint32_t, T *, T *)>(v1<T>), reps);
  return new fcnPerformance<T>("Fn", x, y, std::function<void(uint32_t, T *, T *, T *)>(v2<T>), reps);
}

template <class T> string mean(const string &form, uint64_t n, uint64_t reps, const string &pattern, uint64_t start) {
  logv = Log();
  logv.n = n;
  nowNs = start;
  for (char c : pattern) logv.pattern.push_back(COST[c - 'a']);
  const vector<T> x = xs<T>(n, 0), y = xs<T>(n, 1);
  fcnPerformance<T> *p = perf<T>(form, x, y, (uint32_t)reps);
  steps += logv.calls;
  string e;
  if (!logv.bad.empty()) e = logv.bad;
  else if (logv.costs.size() < reps) e = "only " + str(logv.costs.size()) + " passes over the inputs for " + str(reps) + " repetitions";
  else if (form[0] == 's' && logv.calls != logv.costs.size() * n) e = str(logv.calls) + " calls in " + str(logv.costs.size()) + " passes";
  else {
    uint64_t total = 0;
    for (size_t i = logv.costs.size() - reps; i < logv.costs.size(); i++) total += logv.costs[i];
    const long double want = (long double)total / (n * reps);
    const long double got = p->getAvg();
    const long double tol = want * (sizeof(T) == 4 ? 1e-6L : 1e-12L);
    long double dev = 0;   // of the repetitions' means
    for (size_t i = logv.costs.size() - reps; i < logv.costs.size(); i++) dev += ((long double)logv.costs[i] / n - want) * ((long double)logv.costs[i] / n - want);
    const long double err = reps > 1 ? std::sqrt(dev / (reps - 1) / reps) : 0;
    const long double gotErr = p->getAvgErr();
    if (!(std::fabs(got - want) <= tol)) e = "mean time per call " + str((double)got) + " instead of " + str((double)want);
    // a sum of squares loses about half of the digits
    else if (reps > 1 && !(std::fabs(gotErr - err) <= 1e-6L * (want + err))) e = "error of the mean " + str((double)gotErr) + " instead of " + str((double)err);
    else {
      std::ostringstream o;
      p->print(o);
      const string s = o.str();
      note(s);
      const size_t c = s.find(" : ");
      if (c == string::npos || std::fabs(atof(s.c_str() + c + 3) - (double)want) > 0.00501 + 1e-9 * (double)want) e = "printed \"" + s + "\" for a mean of " + str((double)want);
      const size_t d = s.find("+-");
      if (e.empty() && reps > 1 && (d == string::npos || std::fabs(atof(s.c_str() + d + 2) - (double)err) > 0.00501 + 1e-6 * (double)(want + err))) e = "printed \"" + s + "\" for an error of " + str((double)err);
    }
  }
  delete p;
  return e;
}

// more than 2^32 evaluations in all
struct Big { static uint64_t passes; };
uint64_t Big::passes = 0;
template <class T> string big(const string &form, uint64_t n, uint64_t reps) {
  const vector<T> x(n, T(1)), y(n, T(2));
  nowNs = 0;
  Big::passes = 0;
  uint64_t calls = 0;
  fcnPerformance<T> *p;
  if (form == "s1") p = new fcnPerformance<T>("Fn", x, std::function<T(T)>([&](T v) { if (++calls % n == 0) nowNs += n * 3; return v; }), (uint32_t)reps);
  else if (form == "s2") p = new fcnPerformance<T>("Fn", x, y, std::function<T(T, T)>([&](T v, T) { if (++calls % n == 0) nowNs += n * 3; return v; }), (uint32_t)reps);
  else if (form == "v1") p = new fcnPerformance<T>("Fn", x, std::function<void(uint32_t, T *, T *)>([&](uint32_t m, T *, T *) { calls += m; nowNs += n * 3; }), (uint32_t)reps);
  else p = new fcnPerformance<T>("Fn", x, y, std::function<void(uint32_t, T *, T *, T *)>([&](uint32_t m, T *, T *, T *) { calls += m; nowNs += n * 3; }), (uint32_t)reps);
  steps += calls;
  const double got = p->getAvg();
  delete p;
  if (calls < n * reps) return str(calls) + " evaluations instead of at least " + str(n * reps);
  if (std::fabs(got - 3) > 1e-5) return "mean " + str(got) + " instead of 3 for " + str(n) + " inputs and " + str(reps) + " repetitions";
  return "";
}

string judge(const Key &k) {
  freshOutput();
  if (k[0] == "big") return k[2] == "float" ? big<float>(k[1], num(k[3]), num(k[4])) : big<double>(k[1], num(k[3]), num(k[4]));
  if (k[0] == "mean") return k[2] == "float" ? mean<float>(k[1], num(k[3]), num(k[4]), k[5], num(k[6])) : mean<double>(k[1], num(k[3]), num(k[4]), k[5], num(k[6]));
  const bool t = k[0] == "ELAPSED";
  const vector<uint64_t> &r = readings(t);
  const uint64_t i = num(k[1]);
  for (size_t j = i; j < r.size(); j++) {
    steps += 3;
    inner++;
    string e = elapsed(r[i], r[j]);
    if (e.empty() && (j - i) % 5 == 0) { e = again(r[i], r[j]); steps += 7; }
    if (!e.empty()) return e;
  }
  inner--;
  return "";
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  // more than 2^32 evaluations: each form once, both precisions in the thorough tier
  for (string f : {"s1", "s2", "v1", "v2"}) {
    if (small) break;
    emit({"big", f, "float", "65536", "65536"});
    if (thorough) emit({"big", f, "double", "65536", "65536"});
  }
  for (string f : {"v1", "v2"}) if (!small) emit({"big", f, thorough ? "double" : "float", "65537", "65537"});
  for (size_t i = 0; i < readings(thorough).size(); i++) emit({thorough ? "ELAPSED" : "elapsed", str(i)});
  for (string f : {"s1", "s2", "v1", "v2"})
    for (string p : {"float", "double"}) {
      std::function<void(string, size_t, uint64_t, uint64_t, size_t)> words = [&](string w, size_t len, uint64_t n, uint64_t reps, size_t alphabet) {
        if (w.size() == len) {
          for (const char *start : {"0", "999999999"}) emit({"mean", f, p, str(n), str(reps), w, start});
          return;
        }
        for (size_t i = 0; i < alphabet; i++) words(w + char('a' + i), len, n, reps, alphabet);
      };
      // every cost pattern over all passes, warm-up included
      for (uint64_t n = 1; n <= 4; n++)
        for (uint64_t reps = 1; reps <= 3; reps++) words("", 2 * reps, n, reps, thorough ? 5 : small ? 1 : 4);
      for (uint64_t n = 1; n <= 9; n++)
        for (uint64_t reps : {4, 5, 7, 8, 10, 16, 33}) words("", 3, n, reps, small ? 1 : 5);
      for (uint64_t n : {100, 255, 256, 257, 1000, 65535, 65536, 65537})
        for (uint64_t reps : {1, 2, 10}) { emit({"mean", f, p, str(n), str(reps), "bec", "7"}); emit({"mean", f, p, str(n), str(reps), "ed", "7"}); }
      for (uint64_t reps : {150, 255, 256, 257, 65535, 65536, 65537}) emit({"mean", f, p, "2", str(reps), "bed", "7"});
    }
}
}  // namespace diag
