// C39: what is printed on the screen, after any sequence of earlier printing.
#include "wants.hpp"
#include "vdtdiag_fcnPerformance.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_random.h"

namespace diag {

string rows(const string &s, size_t n) {
  const size_t l = lines(s).size();
  return l == n + 1 ? "" : str(l) + " lines for " + str(n) + " records";
}

// functions that tell every argument and their order apart
template <class T> T fa(T x) { return mc::fromBits<T>(ub(x) * 5 + 3); }
template <class T> T fb(T x) { return mc::fromBits<T>(ub(x) * 9 + 4); }
template <class T> T ga(T x, T y) { return mc::fromBits<T>(ub(x) * 7 + ub(y) * 13 + 1); }
template <class T> T gb(T x, T y) { return mc::fromBits<T>(ub(x) * 3 + ub(y) * 11 + 2); }
template <class T> void fav(uint32_t n, T *x, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = fa(x[i]); }
template <class T> void fbv(uint32_t n, T *x, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = fb(x[i]); }
template <class T> void gav(uint32_t n, T *x, T *y, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = ga(x[i], y[i]); }
template <class T> void gbv(uint32_t n, T *x, T *y, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = gb(x[i], y[i]); }

template <class T> void pairWants(Wants &w, T a, T b, bool strings) {
  value(w, a);
  value(w, b);
  whole(w, distance(a, b));
  if (strings) { bits(w, a); bits(w, b); }
}

// differences of two functions in the six forms, on given arguments
template <class T> string diffs(const string &form, vector<T> x, vector<T> y) {
  using namespace vdth;
  const bool two = form[1] == '2';
  Wants w;
  if (form[0] == 'v') text(w, "Some_name");
  for (size_t i = 0; i < x.size(); i++) {
    if (form[0] != 'v') text(w, "Some_name");
    value(w, x[i]);
    if (two) value(w, y[i]);
    if (two) pairWants(w, ga(x[i], y[i]), gb(x[i], y[i]), true);
    else pairWants(w, fa(x[i]), fb(x[i]), true);
  }
  const std::function<T(T)> f = fa<T>, g = fb<T>;
  const std::function<T(T, T)> f2 = ga<T>, g2 = gb<T>;
  const genfpfunctionv<T> fv = fav<T>, gv = fbv<T>;
  const genfp2functionv<T> f2v = gav<T>, g2v = gbv<T>;
  printed();
  if (form == "s1") printFuncDiff<T>("Some_name", f, g, x[0]);
  else if (form == "s2") printFuncDiff<T>("Some_name", f2, g2, x[0], y[0]);
  else if (form == "v1") printFuncDiff<T>("Some_name", fv, gv, x.data(), (uint32_t)x.size());
  else if (form == "v2") printFuncDiff<T>("Some_name", f2v, g2v, x.data(), y.data(), (uint32_t)x.size());
  else if (form == "l1") printFuncDiff<T>("Some_name", f, g, x.data(), (uint32_t)x.size());
  else printFuncDiff<T>("Some_name", f2, g2, x.data(), y.data(), (uint32_t)x.size());
  steps++;
  return find(w, printed());
}
template <class T> string response(const string &form, const vector<T> &x, const vector<T> &y) {
  Wants w;
  for (size_t i = 0; i < x.size(); i++) {
    whole(w, i);
    text(w, "Some_name");
    value(w, x[i]);
    if (form == "r2") value(w, y[i]);
    value(w, form == "r2" ? ga(x[i], y[i]) : fa(x[i]));
  }
  steps++;
  printed();
  if (form == "r1") fcnResponse1D<T>("Some_name", x, std::function<T(T)>(fa<T>)).print();
  else fcnResponse2D<T>("Some_name", x, y, std::function<T(T, T)>(ga<T>)).print();
  const string s = printed(), e = find(w, s);
  return e.empty() ? rows(s, x.size()) : e;
}

template <class T, int D> struct Compared {
  vector<T> in[2], a, b;
  std::unique_ptr<typename Cmp<T, D>::Object> o;
  Compared(size_t n, int list, T scale, const std::function<int(size_t)> &shift) {
    for (int d = 0; d < D; d++) in[d] = longList<T>(n, list + d);
    for (size_t i = 0; i < n; i++) {
      a.push_back(T(0.75) * T(i + 1) * scale);
      b.push_back(mc::fromBits<T>(ub(a.back()) + (3 << shift(i))));
    }
    o.reset(Cmp<T, D>::make(in, a, b));
  }
  string judge(int how) const {
    const Stats s = expected(a, b);
    Wants w;
    if (how == 0)
      for (size_t i = 0; i < a.size(); i++) {
        whole(w, i);
        text(w, "Some_name");
        for (int d = 0; d < D; d++) value(w, in[d][i]);
        value(w, a[i]);
        value(w, b[i]);
        std::ostringstream h;
        h << std::hex << "0x" << ub(a[i]) << " 0x" << ub(b[i]);
        for (auto &t : tokens(h.str())) text(w, t);
        whole(w, distance(a[i], b[i]));
      }
    text(w, "Some_name");
    whole(w, s.max);
    whole(w, s.min);
    // two significant or two fractional digits
    rough(w, s.mean, s.mean >= 10 ? 0.5 : 0.05);
    if (a.size() > 1) rough(w, s.rms, s.rms >= 10 ? 0.5 : 0.05);
    printed();
    if (how == 0) o->print();
    else o->printStats(how == 2);
    return find(w, printed());
  }
};
template <class T, int D> string comparison(int set, int how) {
  static const Compared<T, D> c[2] = {{3, 2, T(1), [](size_t i) { return int(i * 2); }}, {4, 9, T(1e-20), [](size_t i) { return int(i * 3); }}};
  return c[set].judge(how);
}

template <class T> string performance(int set, double scale) {
  static const vector<T> x = {T(0.5), T(0.25)};
  static std::unique_ptr<fcnPerformance<T>> o[2];
  if (!o[set]) o[set].reset(new fcnPerformance<T>(set ? "Other" : "Some_name", x, std::function<T(T)>(fa<T>), set + 1));
  Wants w;
  text(w, set ? "Other" : "Some_name");
  const double m = o[set]->getAvg();
  rough(w, m, 0.0051);
  rough(w, o[set]->getAvgErr(), 0.0051);
  if (scale != 1) {   // written with its unit
    std::ostringstream t;
    t.precision(2);
    t << std::fixed << scale / o[set]->getAvg() << "X";
    if (m > 0) text(w, t.str());
  }
  printed();
  if (scale != 1) o[set]->print(std::cout, scale);
  else o[set]->print();
  return find(w, printed());
}

template <class T> string poolOf(randomPool1D<T> &p1, randomPool2D<T> &p2, bool two) {
  const vector<T> &x = two ? p2.getNumbersX() : p1.getNumbers(), &y = p2.getNumbersY();
  Wants w;
  for (size_t i = 0; i < x.size(); i++) {
    whole(w, i);
    value(w, x[i]);
    if (two) value(w, y[i]);
  }
  printed();
  if (two) p2.print();
  else p1.print();
  const string s = printed(), e = find(w, s);
  return e.empty() ? rows(s, x.size()) : e;
}
template <class T, int D> string pool(int set) {
  typedef randomPool1D<T> P1;
  typedef randomPool2D<T> P2;
  static P1 p1[2] = {P1(T(-5000), T(5000), 3), P1(T(1e-30), T(1e-29), 4)};
  static P2 p2[2] = {P2(T(-5000), T(-1), T(5000), T(1), 3), P2(T(1e-30), T(1e20), T(1e-29), T(1e25), 4)};
  return poolOf(p1[set], p2[set], D == 2);
}
string instructions() {
  vector<std::pair<string, bool>> sets = {{"SSE2", false}, {"SSE3", false}, {"SSE4.1", false}, {"AVX", false}};
#ifdef __SSE2__
  sets[0].second = true;
#endif
#ifdef __SSE3__
  sets[1].second = true;
#endif
#ifdef __SSE4_1__
  sets[2].second = true;
#endif
#ifdef __AVX__
  sets[3].second = true;
#endif
  printed();
  vdth::print_instructions_info();
  const vector<string> l = lines(printed());
  for (auto &s : sets) {
    int n = 0;
    for (auto &x : l) {
      const vector<string> t = tokens(x);
      if (std::find(t.begin(), t.end(), s.first) == t.end()) continue;
      n++;
      if ((x.find(" not ") == string::npos) != s.second) return s.first + " is reported " + (s.second ? "disabled" : "enabled");
    }
    if (n != 1) return s.first + " is reported " + str(n) + " times";
  }
  return "";
}
string elapsed(int set) {
  vdth::timer t;
  t.start();
  for (volatile int i = 0; i < 10 + set; i = i + 1) {}
  t.stop();
  Wants w;
  whole(w, t.get_elapsed_time());
  printed();
  t.print();
  return find(w, printed());
}

const int NOPS = 20;
template <class T> string op(int o, int set) {
  static const T big = std::numeric_limits<T>::max(), nan = std::numeric_limits<T>::quiet_NaN();
  static const vector<T> X[2] = {{T(1.23456789), T(-0.001)}, {T(3e-30), big, nan}}, Y[2] = {{T(9.8765432), T(4999.25)}, {T(-2e20), T(0), T(1)}};
  steps++;
  switch (o) {
    case 0: return pool<T, 1>(set);
    case 1: return pool<T, 2>(set);
    case 2: return response<T>("r1", X[set], Y[set]);
    case 3: return response<T>("r2", X[set], Y[set]);
    case 4: return comparison<T, 1>(set, 0);
    case 5: return comparison<T, 2>(set, 0);
    case 6: return comparison<T, 1>(set, 1);
    case 7: return comparison<T, 2>(set, 2);
    case 8: return performance<T>(set, 1);
    case 9: return performance<T>(set, 50);
    case 10: case 11: {
      Wants w;
      const T a = X[set][0], b = Y[set][1];
      pairWants(w, a, b, o == 10);
      printed();
      vdth::print_different_bit(a, b, o == 10);
      return find(w, printed());
    }
    case 12: return diffs<T>("s1", {X[set][0]}, {Y[set][0]});
    case 13: return diffs<T>("s2", {X[set][0]}, {Y[set][0]});
    case 14: return diffs<T>("v1", X[set], Y[set]);
    case 15: return diffs<T>("v2", X[set], Y[set]);
    case 16: return diffs<T>("l1", X[set], Y[set]);
    case 17: return diffs<T>("l2", X[set], Y[set]);
    case 18: return elapsed(set);
    default: return instructions();
  }
}
const char *OPS[NOPS] = {"pool", "pool 2D", "response", "response 2D", "comparison", "comparison 2D", "statistics", "statistics row", "timing", "speedup", "differing bit", "differing bit, short",
                         "difference", "difference of two arguments", "array difference", "array difference of two arguments", "list difference", "list difference of two arguments", "elapsed time", "instruction sets"};

template <class T> vector<T> word(const string &s) {
  vector<T> v;
  for (char c : s) if (c != '-') v.push_back(specialValues<T>()[c - 'a']);
  return v;
}
template <class T> string listed(const Key &k) {
  const vector<T> x = word<T>(k[3]), y = word<T>(k[4]);
  return k[1][0] == 'r' ? response<T>(k[1], x, y) : diffs<T>(k[1], x, y);
}

// every form with a given number of entries
template <class T> string sized(const string &f, size_t n) {
  if (f == "c1") return Compared<T, 1>(n, 2, T(1), [](size_t i) { return int(i % 5); }).judge(0);
  if (f == "c2") return Compared<T, 2>(n, 2, T(1), [](size_t i) { return int(i % 5); }).judge(0);
  if (f[0] == 'p') {
    randomPool1D<T> p1(T(-5), T(5), n);
    randomPool2D<T> p2(T(-5), T(-1), T(5), T(1), n);
    return poolOf(p1, p2, f == "p2");
  }
  const vector<T> x = longList<T>(n, 2), y = longList<T>(n, 3);
  return f[0] == 'r' ? response<T>(f, x, y) : diffs<T>(f, x, y);
}
// a step of a history: operation, precision, data set
string judge(const Key &k) {
  freshOutput();
  if (k[0] == "list") return k[2] == "float" ? listed<float>(k) : listed<double>(k);
  if (k[0] == "size") { steps++; return k[2] == "float" ? sized<float>(k[1], num(k[3])) : sized<double>(k[1], num(k[3])); }
  string before;
  for (size_t i = 1; i < k.size(); i++) {
    const uint64_t n = num(k[i]), o = n / 4, set = n % 2;
    const string e = n & 2 ? op<double>(o, set) : op<float>(o, set);
    if (!e.empty()) return string(OPS[o]) + (before.empty() ? "" : " after " + before) + ": " + e;
    before += (before.empty() ? "" : ", ") + string(OPS[o]);
  }
  return "";
}

void words(int alphabet, int n, const std::function<void(const string &)> &emit, string s = "-") {
  if ((int)s.size() == n + 1) { emit(s); return; }
  for (int i = 0; i < alphabet; i++) words(alphabet, n, emit, s + char('a' + i));
}
void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const int N = NOPS * 4;
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++) {
      if (small) { emit({"seq", str(a), str(b)}); continue; }
      for (int c = 0; c < N; c++) {
        if (!thorough) { emit({"seq", str(a), str(b), str(c)}); continue; }
        for (int d = 0; d < N; d += 4) emit({"seq", str(a), str(b), str(c), str(d + (a + b + c) % 4)});
      }
    }
  for (string p : {"float", "double"})
    for (string f : {"s1", "s2", "v1", "v2", "l1", "l2", "r1", "r2"})
      for (int n = f[0] == 's' ? 1 : 0; n <= (f[0] == 's' ? 1 : 3); n++)
        words(n < 2 ? 16 : n == 2 ? 8 : thorough ? 8 : 4, n, [&](const string &x) {
          if (f[1] == '1') { emit({"list", f, p, x, "-"}); return; }
          words(n < 2 ? 16 : n == 2 ? 6 : thorough ? 4 : 3, n, [&](const string &y) { emit({"list", f, p, x, y}); });
        });
  vector<size_t> sizes;
  for (size_t n = 1; n <= (small ? 12 : 40); n++) sizes.push_back(n);
  if (!small) for (size_t n : {63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097}) sizes.push_back(n);
  if (thorough) for (size_t n : {9999, 10000, 10001, 65535, 65536, 65537}) sizes.push_back(n);
  for (size_t n : sizes)
    for (string p : {"float", "double"})
      for (string f : {"p1", "p2", "r1", "r2", "c1", "c2", "v1", "v2", "l1", "l2"}) emit({"size", f, p, str(n)});
}
}  // namespace diag
