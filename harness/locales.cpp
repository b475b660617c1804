// C42: files written under one global locale and read under another.
#include "cmpview.hpp"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_random.h"
#include <climits>
#include <locale>

namespace diag {

struct Punct : std::numpunct<char> {
  char point, separator;
  string groups;
  Punct(char p, char s, const string &g) : point(p), separator(s), groups(g) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return separator; }
  string do_grouping() const override { return groups; }
  string do_truename() const override { return "vrai"; }
  string do_falsename() const override { return "faux"; }
};
const vector<std::locale> &locales() {
  static vector<std::locale> l;
  if (l.empty()) {
    l.push_back(std::locale::classic());
    for (char p : {'.', ',', '\''})
      for (char s : {',', '.', ' ', '\'', '_', 'x'})
        for (string g : {"", "\1", "\2", "\3", "\3\2"}) if (p != s) l.push_back(std::locale(std::locale::classic(), new Punct(p, s, g)));
  }
  return l;
}
void use(size_t i) { std::locale::global(locales()[i]); }

template <class T> T twice(T x) { return x + x; }
template <class T> T less(T x, T y) { return x - y; }

// one kind of file: make, read and write an object, and say what it holds
template <class T> struct Data {
  vector<T> in[2], a, b;
  Data(int set) {
    const size_t n[] = {1, 4, 16, 1100};
    for (int d = 0; d < 2; d++) in[d] = longList<T>(n[set], 1 + d + set);
    for (size_t i = 0; i < n[set]; i++) {
      a.push_back(T(0.75) * T(i + 1));
      b.push_back(mc::fromBits<T>(ub(a.back()) + (3 << (i % 9))));
    }
  }
};
template <class T> const Data<T> &data(int set) {
  static const Data<T> d[] = {0, 1, 2, 3};
  return d[set];
}
template <class T, int D> struct Pool {
  typedef typename std::conditional<D == 1, randomPool1D<T>, randomPool2D<T>>::type Object;
  static randomPool1D<T> *fresh(std::integral_constant<int, 1>, int s) { return new randomPool1D<T>(T(-1234.5), T(98765), data<T>(s).a.size(), 7 + s); }
  static randomPool2D<T> *fresh(std::integral_constant<int, 2>, int s) { return new randomPool2D<T>(T(-1234.5), T(0.5), T(98765), T(2e6), data<T>(s).a.size(), 7 + s); }
  static Object *make(int s) { return fresh(std::integral_constant<int, D>(), s); }
  static string diff(randomPool1D<T> &o, randomPool1D<T> &w) { return diffLists("numbers", o.getNumbers(), w.getNumbers()); }
  static string diff(randomPool2D<T> &o, randomPool2D<T> &w) { const string e = diffLists("first numbers", o.getNumbersX(), w.getNumbersX()); return e.empty() ? diffLists("second numbers", o.getNumbersY(), w.getNumbersY()) : e; }
  static string check(Object &o, int s) {
    std::unique_ptr<Object> w(make(s));
    return diff(o, *w);
  }
};
template <class T, int D> struct Resp;
template <class T> struct Resp<T, 1> {
  typedef fcnResponse1D<T> Object;
  static Object *make(int s) { return new Object("Some_name", data<T>(s).in[0], std::function<T(T)>(twice<T>)); }
  static string check(Object &o, int s) {
    std::unique_ptr<Object> w(make(s));
    const string e = diffLists("input", o.getInput(), w->getInput());
    return e.empty() ? diffLists("output", o.getOutput(), w->getOutput()) : e;
  }
};
template <class T> struct Resp<T, 2> {
  typedef fcnResponse2D<T> Object;
  static Object *make(int s) { return new Object("Some_name", data<T>(s).in[0], data<T>(s).in[1], std::function<T(T, T)>(less<T>)); }
  static string check(Object &o, int s) {
    std::unique_ptr<Object> w(make(s));
    string e = diffLists("first input", o.getInput1(), w->getInput1());
    if (e.empty()) e = diffLists("second input", o.getInput2(), w->getInput2());
    return e.empty() ? diffLists("output", o.getOutput(), w->getOutput()) : e;
  }
};
template <class T, int D> struct Comp {
  typedef typename Cmp<T, D>::Object Object;
  static Object *make(int s) { return Cmp<T, D>::make(data<T>(s).in, data<T>(s).a, data<T>(s).b); }
  static string check(Object &o, int s) { return checkObject<T, D>(o, data<T>(s).in, data<T>(s).a, data<T>(s).b, ""); }
};

string body(const string &f) { const string s = slurp(f); return s.substr(std::min(s.size(), s.find('\n'))); }

// write under w, read and write again under r, read that under w
template <class K> string state(int set, size_t w, size_t r) {
  typedef std::unique_ptr<typename K::Object> P;
  const string A = scratch("A"), B = scratch("B"), C = scratch("C");
  P o(K::make(set));
  o->writeFile(C);
  use(w);
  P p(K::make(set));
  p->writeFile(A);
  use(r);
  P q(new typename K::Object(A));
  q->writeFile(B);
  use(w);
  P t(new typename K::Object(B));
  use(0);
  steps += 6;
  const string want = slurp(C);
  if (slurp(A) != want) return "another file than in the standard locale";
  if (body(B) != body(C)) return "the copy differs from the file written in the standard locale";
  string e = K::check(*p, set);
  if (e.empty() && !(e = K::check(*q, set)).empty()) e = "read back: " + e;
  if (e.empty() && !(e = K::check(*t, set)).empty()) e = "copy read back: " + e;
  return e;
}
template <class T> string kind(const string &k, int set, size_t w, size_t r) {
  if (k == "pool1") return state<Pool<T, 1>>(set, w, r);
  if (k == "pool2") return state<Pool<T, 2>>(set, w, r);
  if (k == "response1") return state<Resp<T, 1>>(set, w, r);
  if (k == "response2") return state<Resp<T, 2>>(set, w, r);
  if (k == "comparison1") return state<Comp<T, 1>>(set, w, r);
  return state<Comp<T, 2>>(set, w, r);
}
string judge(const Key &k) {
  use(0);
  const string e = k[1] == "float" ? kind<float>(k[0], num(k[2]), num(k[3]), num(k[4])) : kind<double>(k[0], num(k[2]), num(k[3]), num(k[4]));
  use(0);
  return e;
}
void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const size_t n = locales().size();
  for (size_t w = 0; w < n; w++)
    for (size_t r = 0; r < n; r++)
      for (int s = 0; s < 4; s++) {
        // long files only with equal locales or the standard one; all pairs otherwise
        if (s == 3 && !thorough && w && r && w != r) continue;
        if (small && (w * 7 + r) % 11) continue;
        for (string p : {"double", "float"})
          for (string k : {"pool1", "pool2", "response1", "response2", "comparison1", "comparison2"}) emit({k, p, str(s), str(w), str(r)});
      }
}
}  // namespace diag
