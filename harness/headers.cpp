// C47: what the head of a data file says about the file, after any sequence of writing and copying.
#include "wants.hpp"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_random.h"

namespace diag {

template <class T> const vector<std::pair<T, T>> &intervals() {
  const T big = std::numeric_limits<T>::max(), tiny = std::numeric_limits<T>::denorm_min(), low = std::numeric_limits<T>::min();
  static const vector<std::pair<T, T>> v = {
      {T(-5000), T(5000)}, {T(1e-4), T(5000)}, {T(-1), T(1)}, {T(-85), T(88)}, {T(0), T(1)}, {T(-7), T(-3)}, {T(3), T(7.25)}, {T(2.5), T(2.5)}, {-big, big}, {T(0), tiny},
      {-tiny, low}, {T(-1e-30), T(1e30)}, {T(16777216), T(33554432)}, {T(-0.00123457), T(0.0625)}, {T(-123456), T(654321)}, {T(-1), T(0)}};
  return v;
}
const char *const NAMES[] = {"Some_name", "Exp", "atan2f", "x", "Fast Sin versus Sin", "5", "Double", "Single",
                             "a_name_of_more_than_one_hundred_and_twenty_eight_characters_abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_end"};
const size_t NAMED = sizeof NAMES / sizeof *NAMES;

template <class T> T f1(T x) { return x + T(1); }
template <class T> T f2(T x, T y) { return x - y; }
template <class T> vector<T> list(uint64_t n, int k) {
  vector<T> v;
  for (uint64_t i = 0; i < n; i++) v.push_back(T(i) * T(0.375) - T(k));
  return v;
}

// One kind of file: an object from its parameters, the number of words after the head, what the head tells.
template <class T, int D> struct Pool {
  typedef typename std::conditional<D == 1, randomPool1D<T>, randomPool2D<T>>::type Object;
  std::pair<T, T> iv[2];
  uint64_t n;
  Pool(uint64_t i, uint64_t j, uint64_t count) : n(count) { iv[0] = intervals<T>()[i]; iv[1] = intervals<T>()[j]; }
  static randomPool1D<T> *make(const Pool<T, 1> &p) { return new randomPool1D<T>(p.iv[0].first, p.iv[0].second, p.n); }
  static randomPool2D<T> *make(const Pool<T, 2> &p) { return new randomPool2D<T>(p.iv[0].first, p.iv[1].first, p.iv[0].second, p.iv[1].second, p.n); }
  Object *object() const { return make(*this); }
  uint64_t words() const { return n * D; }
  void tells(Wants &w) const {
    for (int d = 0; d < D; d++) value(w, iv[d].first);
    for (int d = 0; d < D; d++) value(w, iv[d].second);
    whole(w, n);
  }
};
template <class T, int D> struct Resp {
  typedef typename std::conditional<D == 1, fcnResponse1D<T>, fcnResponse2D<T>>::type Object;
  string name;
  uint64_t n;
  Resp(uint64_t i, uint64_t, uint64_t count) : name(NAMES[i]), n(count) {}
  static fcnResponse1D<T> *make(const Resp<T, 1> &p) { return new fcnResponse1D<T>(p.name, list<T>(p.n, 0), std::function<T(T)>(f1<T>)); }
  static fcnResponse2D<T> *make(const Resp<T, 2> &p) { return new fcnResponse2D<T>(p.name, list<T>(p.n, 0), list<T>(p.n, 1), std::function<T(T, T)>(f2<T>)); }
  Object *object() const { return make(*this); }
  uint64_t words() const { return n * (D + 1); }
  void tells(Wants &w) const { for (auto &t : tokens(name)) text(w, t); }
};
template <class T, int D> struct Comp {
  typedef typename Cmp<T, D>::Object Object;
  string name;
  uint64_t n;
  Comp(uint64_t i, uint64_t, uint64_t count) : name(NAMES[i]), n(count) {}
  static fcnComparison1D<T> *make(const Comp<T, 1> &p) { return new fcnComparison1D<T>(p.name, list<T>(p.n, 0), list<T>(p.n, 1), list<T>(p.n, 2)); }
  static fcnComparison2D<T> *make(const Comp<T, 2> &p) { return new fcnComparison2D<T>(p.name, list<T>(p.n, 0), list<T>(p.n, 3), list<T>(p.n, 1), list<T>(p.n, 2)); }
  Object *object() const { return make(*this); }
  uint64_t words() const { return 4 + n * (2 * D + 3); }
  void tells(Wants &w) const { for (auto &t : tokens(name)) text(w, t); }
};

template <class T, class P> string head(const string &file, const P &p, const string &from) {
  const vector<string> l = lines(slurp(file));
  if (l.empty()) return "the file is empty";
  const size_t at = l[0].find("first ");
  const uint64_t n = at == string::npos ? 0 : num(l[0].substr(at + 6));
  if (!n || l[0].find(" lines", at) == string::npos) return "the first line does not tell the length of the head: \"" + l[0] + "\"";
  if (n > l.size()) return "a head of " + str(n) + " lines in a file of " + str(l.size());
  uint64_t words = 0;
  for (size_t i = n; i < l.size(); i++) words += tokens(l[i]).size();
  if (words != p.words()) return str(words) + " words after the " + str(n) + " lines of the head instead of " + str(p.words());
  if (!from.empty() && l[0].find(from) == string::npos) return "a copy of " + from + " begins with \"" + l[0] + "\"";
  string h;
  for (size_t i = 1; i < n; i++) h += l[i] + "\n";
  note(h);
  Wants w;
  text(w, sizeof(T) == 8 ? "Double" : "Single");
  text(w, "Precision");
  p.tells(w);
  const string e = find(w, h);
  if (!e.empty()) return e;
  if (h.find(sizeof(T) == 8 ? "Single Precision" : "Double Precision") != string::npos) return "both precisions are named";
  return "";
}

template <class P> void create(const P &p, const string &f) {
  std::unique_ptr<typename P::Object> o(p.object());
  o->writeFile(f);
  steps += 2;
}
template <class P> void copy(const string &f, const string &g) {
  typename P::Object o(f);
  o.writeFile(g);
  steps += 2;
}
string file(int i) { return scratch(i ? "B" : "A"); }

template <class T, class P> string one(uint64_t i, uint64_t j, uint64_t n) {
  const P p(i, j, n);
  create(p, file(0));
  string e = head<T>(file(0), p, "");
  if (e.empty()) {
    copy<P>(file(0), file(1));
    e = head<T>(file(1), p, file(0));
    if (!e.empty()) e = "copied: " + e;
  }
  return e;
}

// operations: write object 0 or 1 to file 0 or 1, copy a file over itself or the other one
const char OPS[] = "abcdefgh";
bool apply(char c, int *content, int *from) {   // on the model
  if (c < 'e') {
    const int o = (c - 'a') / 2, f = (c - 'a') % 2;
    content[f] = o;
    from[f] = -1;
    return true;
  }
  const int s = (c - 'e') / 2, d = (c - 'e') % 2;
  if (content[s] < 0) return false;
  content[d] = content[s];
  from[d] = s;
  return true;
}
template <class T, class P> string history(const string &word) {
  const P p[2] = {P(0, 3, 4), P(2, 5, 3)};
  int content[2] = {-1, -1}, from[2] = {-1, -1};
  for (char c : word) {
    if (c < 'e') create(p[(c - 'a') / 2], file((c - 'a') % 2));
    else copy<P>(file((c - 'e') / 2), file((c - 'e') % 2));
    apply(c, content, from);
  }
  for (int f = 0; f < 2; f++)
    if (content[f] >= 0) {
      const string e = head<T>(file(f), p[content[f]], from[f] < 0 ? "" : file(from[f]));
      if (!e.empty()) return "file " + str(f) + ": " + e;
    }
  return "";
}

template <class T, class P> string kind(const Key &k) {
  return k[0] == "hist" ? history<T, P>(k[3]) : one<T, P>(num(k[3]), num(k[4]), num(k[5]));
}
template <class T> string precision(const Key &k) {
  const string &s = k[1];
  if (s == "pool1") return kind<T, Pool<T, 1>>(k);
  if (s == "pool2") return kind<T, Pool<T, 2>>(k);
  if (s == "resp1") return kind<T, Resp<T, 1>>(k);
  if (s == "resp2") return kind<T, Resp<T, 2>>(k);
  if (s == "comp1") return kind<T, Comp<T, 1>>(k);
  return kind<T, Comp<T, 2>>(k);
}
string judge(const Key &k) {
  freshOutput();
  cleanup();
  return k[2] == "float" ? precision<float>(k) : precision<double>(k);
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const size_t depth = thorough ? 6 : small ? 3 : 5;
  for (string k : {"pool1", "pool2", "resp1", "resp2", "comp1", "comp2"})
    for (string p : {"float", "double"}) {
      const size_t a = k[0] == 'p' ? intervals<float>().size() : NAMED, b = k == "pool2" ? a : 1;
      for (size_t i = 0; i < a; i++)
        for (size_t j = 0; j < b; j++) {
          for (uint64_t n = 1; n <= (small ? 3 : 12); n++) emit({"head", k, p, str(i), str(j), str(n)});
          if (!small && (b == 1 || i == j || thorough)) for (uint64_t n : {99, 100, 255, 256, 999, 1000, 1001, 4096}) emit({"head", k, p, str(i), str(j), str(n)});
        }
      if (!small) for (uint64_t n : {9999, 10000, 65535, 65536, 65537, 100000, 131072, 999999, 1000000, 1000001}) emit({"head", k, p, "1", "0", str(n)});
      std::function<void(string)> grow = [&](string w) {
        if (!w.empty()) emit({"hist", k, p, w});
        if (w.size() == depth) return;
        for (const char *c = OPS; *c; c++) {
          int content[2] = {-1, -1}, from[2] = {-1, -1};
          for (char d : w) apply(d, content, from);
          if (apply(*c, content, from)) grow(w + *c);
        }
      };
      grow("");
    }
}
}  // namespace diag
