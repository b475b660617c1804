// C26: comparison statistics and files.
#include "cmpview.hpp"

namespace diag {

// pairs of results with a known differing bit: letters a..
template <class T> vector<std::pair<T, T>> pairs() {
  typedef typename mc::U<T>::type B;
  const int W = sizeof(T) * 8;
  vector<std::pair<T, T>> v;
  auto add = [&](B a, B b) { v.push_back({mc::fromBits<T>(a), mc::fromBits<T>(b)}); };
  const B one = ub(T(1)), inf = ub(std::numeric_limits<T>::infinity());
  add(one, one);                        // 0
  add(one, one + 1);                    // 1
  add(one + 5, one + 2);                // 2
  add(one, B(one + (B(1) << (W / 2))));  // W/2+1
  add(0, B(1) << (W - 1));              // W
  add(inf | 1, inf);                    // 1, not a number
  add(inf | 7, inf | 7);                // 0, not a number
  add(B(0), B(~B(0) >> 1));             // W-1
  add(ub(T(2)), ub(T(3)));
  add(1, 0);
  return v;
}

template <class T, int D> void lists(const string &w, vector<T> *in, vector<T> &a, vector<T> &b) {
  const vector<std::pair<T, T>> p = pairs<T>();
  uint64_t n;
  if (w[0] == 'n') {   // n<size>.<variant>: long lists
    const size_t d = w.find('.');
    n = num(w.substr(1, d - 1));
    const uint64_t var = num(w.substr(d + 1));
    for (uint64_t i = 0; i < n; i++) {
      const std::pair<T, T> q = var == 0 ? p[i % p.size()] : var == 1 ? p[i + 1 == n ? 2 : 0] : var == 2 ? p[i == 0 ? 4 : 1] : p[4];
      a.push_back(q.first);
      b.push_back(q.second);
    }
  } else {
    for (char c : w) { a.push_back(p[c - 'a'].first); b.push_back(p[c - 'a'].second); }
    n = w.size();
  }
  for (int d = 0; d < D; d++) in[d] = longList<T>(n, 3 + 5 * d + n % 7);
}

template <class T, int D> struct K {
  typedef typename Cmp<T, D>::Object Object;
  static void data(int set, vector<T> *in, vector<T> &a, vector<T> &b) { lists<T, D>(set ? "bgeh" : "cad", in, a, b); }
  static Object *make(int set) { vector<T> in[2], a, b; data(set, in, a, b); return Cmp<T, D>::make(in, a, b); }
  static Object *read(const string &f) { return new Object(f); }
  static void write(Object &o, const string &f) { o.writeFile(f); }
  static string check(Object &o, int set) { vector<T> in[2], a, b; data(set, in, a, b); return checkObject<T, D>(o, in, a, b, ""); }
};

template <class T, int D> string state(const Key &k) {
  if (k[0] == "copies") return Copies<K<T, D>>::run(k[3]);
  if (k[0] == "history") return History<K<T, D>>::run(k[3]);
  typedef typename Cmp<T, D>::Object O;
  vector<T> in[2], a, b;
  lists<T, D>(k[3], in, a, b);
  std::unique_ptr<O> o(Cmp<T, D>::make(in, a, b));
  string e = checkObject<T, D>(*o, in, a, b, "Some_name");
  if (!e.empty()) return e;
  o->writeFile(scratch("A"));
  e = checkFile<T, D>(scratch("A"), in, a, b);
  if (!e.empty()) return e;
  O r(scratch("A"));
  steps += 3;
  e = checkObject<T, D>(r, in, a, b, "");
  if (!e.empty()) return "read back: " + e;
  if (k[3].size() > 2 && k[3][0] != 'n') return "";   // copies of copies for the short and the long lists
  r.writeFile(scratch("B"));
  O c(scratch("B"));
  steps += 2;
  e = checkObject<T, D>(c, in, a, b, "");
  return e.empty() ? "" : "copy read back: " + e;
}

string judge(const Key &k) {
  freshOutput();
  const bool two = k[2] == "2";
  return k[1] == "float" ? two ? state<float, 2>(k) : state<float, 1>(k) : two ? state<double, 2>(k) : state<double, 1>(k);
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  std::function<void(const string &, const string &, const string &, int, int)> words = [&](const string &p, const string &d, const string &w, int n, int alphabet) {
    if ((int)w.size() == n) { emit({"lists", p, d, w}); return; }
    for (int i = 0; i < alphabet; i++) words(p, d, w + char('a' + i), n, alphabet);
  };
  for (string p : {"float", "double"})
    for (string d : {"1", "2"}) {
#ifdef MC_COPIES
      Copies<K<float, 1>>::all(4 + thorough, [&](const string &o) { emit({"copies", p, d, o}); });
      continue;
#endif
      for (int n = 1; n <= (small ? 2 : 4); n++) words(p, d, "", n, 10);
      words(p, d, "", 5, thorough ? 10 : small ? 2 : 5);
      if (thorough) words(p, d, "", 6, 6);
      for (int n = 1; n <= 40; n++) for (int v = 0; v < 4; v++) emit({"lists", p, d, "n" + str(n) + "." + str(v)});
      for (int n : {255, 256, 257, 1000, 65535, 65536, 65537, 70000}) for (int v = 0; v < 4 && (n <= 1000 || !small); v++) emit({"lists", p, d, "n" + str(n) + "." + str(v)});
      History<K<float, 1>>::all(thorough ? 5 : small ? 3 : 4, [&](const string &o) { emit({"history", p, d, o}); });
    }
}
}  // namespace diag
