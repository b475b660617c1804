// C24: random pools.
#include "diaghist.hpp"
#include "vdtdiag_random.h"

namespace diag {

template <class T> vector<std::pair<T, T>> intervals() {
  const T big = std::numeric_limits<T>::max(), tiny = std::numeric_limits<T>::denorm_min(), eps = std::numeric_limits<T>::epsilon();
  return {{T(-5000), T(5000)}, {T(1e-4), T(5000)}, {T(-1), T(1)}, {T(-85), T(85)}, {T(0), T(1)}, {T(-7), T(-3)}, {T(3), T(7)},
          {T(0), T(0)}, {T(2.5), T(2.5)}, {T(1), T(1) + eps}, {T(1), T(1) + 4 * eps}, {-big, big}, {T(0), big}, {-big, T(0)}, {T(0), tiny}, {-tiny, tiny},
          {T(0), 8 * tiny}, {T(-1e-30), T(1e30)}, {T(16777216), T(16777217) + 1}, {T(0), T(1e-3)}, {T(-1), T(0)}};
}
const int64_t SEEDS[] = {1, 0, 2, 3, -1, 2147483647, -2147483647 - 1, 12345};
const uint64_t SIZES[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000};

template <class T> string inside(const char *what, const vector<T> &v, T lo, T hi, uint64_t n) {
  if (v.size() != n) return string(what) + ": " + str(v.size()) + " values instead of " + str(n);
  for (size_t i = 0; i < n; i++)
    if (!(v[i] >= lo && v[i] <= hi)) return string(what) + "[" + str(i) + "] = " + mc::hexf(v[i]) + " is outside [" + mc::hexf(lo) + ", " + mc::hexf(hi) + "]";
  return "";
}

// more than a few representable values lie between lo and hi, so that equal lists mean equal random numbers
template <class T> bool wide(T lo, T hi) { return hi - lo > std::fabs(hi) * T(1e-3) && hi > T(1e-6) ; }

template <class T> struct P1 {
  typedef randomPool1D<T> Object;
  static Object *make(int set) { return set ? new Object(T(-1), T(1), 7, 5) : new Object(T(-5000), T(5000), 4); }
  static Object *read(const string &f) { return new Object(f); }
  static void write(Object &o, const string &f) { o.writeFile(f); }
  static const vector<T> &want(int set) {
    static const vector<T> w[2] = {std::unique_ptr<Object>(make(0))->getNumbers(), std::unique_ptr<Object>(make(1))->getNumbers()};
    return w[set];
  }
  static string check(Object &o, int set) { return diffLists("numbers", o.getNumbers(), want(set)); }
};
template <class T> struct P2 {
  typedef randomPool2D<T> Object;
  static Object *make(int set) { return set ? new Object(T(-1), T(10), T(1), T(20), 5, 5) : new Object(T(-5000), T(0), T(5000), T(1e-3), 3); }
  static Object *read(const string &f) { return new Object(f); }
  static void write(Object &o, const string &f) { o.writeFile(f); }
  static const vector<T> &want(int set, int xy) {
    static const vector<T> w[4] = {std::unique_ptr<Object>(make(0))->getNumbersX(), std::unique_ptr<Object>(make(0))->getNumbersY(),
                                   std::unique_ptr<Object>(make(1))->getNumbersX(), std::unique_ptr<Object>(make(1))->getNumbersY()};
    return w[set * 2 + xy];
  }
  static string check(Object &o, int set) {
    const string e = diffLists("X", o.getNumbersX(), want(set, 0));
    return e.empty() ? diffLists("Y", o.getNumbersY(), want(set, 1)) : e;
  }
};

template <class T> string one(uint64_t iv, uint64_t n, int64_t seed) {
  const auto I = intervals<T>()[iv];
  steps += 2;
  randomPool1D<T> a(I.first, I.second, n, (int32_t)seed), b(I.first, I.second, n, (int32_t)seed);
  string e = inside("numbers", a.getNumbers(), I.first, I.second, n);
  if (e.empty()) e = diffLists("second pool with the same parameters", b.getNumbers(), a.getNumbers());
  if (e.empty() && seed == 1) {
    randomPool1D<T> c(I.first, I.second, n);
    steps++;
    e = inside("numbers with the default seed", c.getNumbers(), I.first, I.second, n);
  }
  if (e.empty() && n >= 3 && wide(I.first, I.second))
    for (int64_t s : SEEDS)
      if (s != seed) {
        randomPool1D<T> c(I.first, I.second, n, (int32_t)s);
        steps++;
        if (diffLists("", c.getNumbers(), a.getNumbers()).empty()) return "seeds " + str(seed) + " and " + str(s) + " give the same pool";
        if (n > 1000) break;
      }
  if (e.empty()) {
    const string f = scratch("A"), g = scratch("B");
    a.writeFile(f);
    randomPool1D<T> c(f);
    e = diffLists("read back", c.getNumbers(), a.getNumbers());
    if (e.empty()) {
      c.writeFile(g);
      randomPool1D<T> d(g);
      e = diffLists("copied and read back", d.getNumbers(), a.getNumbers());
    }
    steps += 4;
  }
  return e;
}
template <class T> string two(uint64_t ix, uint64_t iy, uint64_t n, int64_t seed) {
  const auto X = intervals<T>()[ix], Y = intervals<T>()[iy];
  steps += 2;
  randomPool2D<T> a(X.first, Y.first, X.second, Y.second, n, (int32_t)seed), b(X.first, Y.first, X.second, Y.second, n, (int32_t)seed);
  string e = inside("X", a.getNumbersX(), X.first, X.second, n);
  if (e.empty()) e = inside("Y", a.getNumbersY(), Y.first, Y.second, n);
  if (e.empty()) e = diffLists("X of a second pool with the same parameters", b.getNumbersX(), a.getNumbersX());
  if (e.empty()) e = diffLists("Y of a second pool with the same parameters", b.getNumbersY(), a.getNumbersY());
  if (e.empty() && n >= 3 && n <= 1000 && (wide(X.first, X.second) || wide(Y.first, Y.second)))
    for (int64_t s : SEEDS)
      if (s != seed) {
        randomPool2D<T> c(X.first, Y.first, X.second, Y.second, n, (int32_t)s);
        steps++;
        if (wide(X.first, X.second) && diffLists("", c.getNumbersX(), a.getNumbersX()).empty()) return "seeds " + str(seed) + " and " + str(s) + " give the same X";
        if (wide(Y.first, Y.second) && diffLists("", c.getNumbersY(), a.getNumbersY()).empty()) return "seeds " + str(seed) + " and " + str(s) + " give the same Y";
      }
  if (e.empty()) {
    const string f = scratch("A"), g = scratch("B");
    a.writeFile(f);
    randomPool2D<T> c(f);
    c.writeFile(g);
    randomPool2D<T> d(g);
    steps += 4;
    e = diffLists("X read back", c.getNumbersX(), a.getNumbersX());
    if (e.empty()) e = diffLists("Y read back", c.getNumbersY(), a.getNumbersY());
    if (e.empty()) e = diffLists("X copied and read back", d.getNumbersX(), a.getNumbersX());
    if (e.empty()) e = diffLists("Y copied and read back", d.getNumbersY(), a.getNumbersY());
  }
  return e;
}

string judge(const Key &k) {
  freshOutput();
  const bool sp = k[1] == "float";
  if (k[0] == "pool") return sp ? one<float>(num(k[2]), num(k[3]), atoll(k[4].c_str())) : one<double>(num(k[2]), num(k[3]), atoll(k[4].c_str()));
  if (k[0] == "pairs") return sp ? two<float>(num(k[2]), num(k[3]), num(k[4]), atoll(k[5].c_str())) : two<double>(num(k[2]), num(k[3]), num(k[4]), atoll(k[5].c_str()));
  if (k[0] == "copies1") return sp ? Copies<P1<float>>::run(k[2]) : Copies<P1<double>>::run(k[2]);
  if (k[0] == "copies2") return sp ? Copies<P2<float>>::run(k[2]) : Copies<P2<double>>::run(k[2]);
  if (k[0] == "history1") return sp ? History<P1<float>>::run(k[2]) : History<P1<double>>::run(k[2]);
  return sp ? History<P2<float>>::run(k[2]) : History<P2<double>>::run(k[2]);
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const size_t N = intervals<float>().size();
  for (string p : {"float", "double"}) {
#ifdef MC_COPIES
    for (const char *h : {"copies1", "copies2"})
      Copies<P1<float>>::all(4 + thorough, [&](const string &o) { emit({h, p, o}); });
    continue;
#endif
    for (size_t i = 0; i < N; i++)
      for (uint64_t n : SIZES)
        for (int64_t s : SEEDS)
          if (small ? n <= 1000 && s == 1 : n <= 1000 || s == 1) emit({"pool", p, str(i), str(n), str(s)});
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++)
        for (uint64_t n : SIZES)
          for (int64_t s : SEEDS)
            if (small ? n <= 33 && s == 1 && i % 4 == 0 : n <= 33 || (s == 1 && i % 5 == 0 && j % 7 == 1)) emit({"pairs", p, str(i), str(j), str(n), str(s)});
    for (const char *h : {"history1", "history2"})
      History<P1<float>>::all(thorough ? 6 : small ? 3 : 5, [&](const string &o) { emit({h, p, o}); });
  }
}
}  // namespace diag
