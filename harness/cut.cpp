// C31: files whose writing stopped after any number of bytes.
#include "cmpview.hpp"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_random.h"

namespace diag {

template <class T> T g1(T x) { return mc::fromBits<T>(ub(x) * 5 + 3); }
template <class T> T g2(T x, T y) { return mc::fromBits<T>(ub(x) * 7 + ub(y) * 13 + 1); }

// columns of values, compared by position
template <class T> using Columns = vector<vector<T>>;
template <class T> string prefix(const Columns<T> &got, const Columns<T> &all) {
  size_t lo = ~size_t(0), hi = 0;
  for (auto &c : got) { lo = std::min(lo, c.size()); hi = std::max(hi, c.size()); }
  if (hi > all[0].size()) return str(hi) + " records out of " + str(all[0].size());
  if (hi - lo > 1) return "columns of " + str(lo) + " and " + str(hi) + " values";
  for (size_t i = 0; i + 1 < hi; i++)
    for (size_t c = 0; c < got.size(); c++)
      if (ub(got[c][i]) != ub(all[c][i])) return "record " + str(i) + " of " + str(hi) + " differs in column " + str(c) + ": " + mc::hexf(got[c][i]) + " instead of " + mc::hexf(all[c][i]);
  return "";
}

template <class T> struct Pool1 {
  typedef randomPool1D<T> O;
  static O *make(int set) { return new O(T(-5000), T(5000), set ? 2 : 60, 3); }
  static Columns<T> view(O &o, string &) { return {o.getNumbers()}; }
};
template <class T> struct Pool2 {
  typedef randomPool2D<T> O;
  static O *make(int set) { return new O(T(-1), T(1e-9), T(1), T(1e9), set ? 2 : 40, 3); }
  static Columns<T> view(O &o, string &) { return {o.getNumbersX(), o.getNumbersY()}; }
};
template <class T> struct Resp1 {
  typedef fcnResponse1D<T> O;
  static O *make(int set) { return new O("Fn_x", longList<T>(set ? 3 : 50, set), std::function<T(T)>(g1<T>)); }
  static Columns<T> view(O &o, string &) { return {o.getInput(), o.getOutput()}; }
};
template <class T> struct Resp2 {
  typedef fcnResponse2D<T> O;
  static O *make(int set) { return new O("Fn_x", longList<T>(set ? 3 : 40, set), longList<T>(set ? 3 : 40, set + 5), std::function<T(T, T)>(g2<T>)); }
  static Columns<T> view(O &o, string &) { return {o.getInput1(), o.getInput2(), o.getOutput()}; }
};
template <class T, int D> struct Comp {
  typedef typename Cmp<T, D>::Object O;
  static O *make(int set) {
    vector<T> in[2], a, b;
    const int n = set ? 3 : 40;
    for (int d = 0; d < D; d++) in[d] = longList<T>(n, set + 5 * d);
    for (T x : in[0]) { a.push_back(g1(x)); b.push_back(g1(g1(x))); }
    return Cmp<T, D>::make(in, a, b);
  }
  static Columns<T> view(O &o, string &e) {
    vector<Record<T>> r;
    e = records<T, D>(o, r);
    note(str(o.hasDifference()));
    o.printStats();
    printed();
    Columns<T> c(D + 3);
    for (auto &x : r) {
      for (int d = 0; d < D; d++) {
        const T v = (T)strtod(x.in[d].c_str(), 0);
        c[d].push_back(v != v ? std::numeric_limits<T>::quiet_NaN() : v);
      }
      c[D].push_back(mc::fromBits<T>(x.a));
      c[D + 1].push_back(mc::fromBits<T>(x.b));
      c[D + 2].push_back(T(x.d));
    }
    return c;
  }
};

// full contents of the file of one kind and data set, and the records behind it
template <class K, class T> struct Whole {
  string text;
  Columns<T> all;
  Whole(int set) {
    std::unique_ptr<typename K::O> o(K::make(set));
    o->writeFile(scratch("A"));
    text = slurp(scratch("A"));
    string e;
    all = K::view(*o, e);
  }
  static const Whole &get(int set) { static const Whole w[2] = {Whole(0), Whole(1)}; return w[set]; }
};

template <class K, class T> string cut(int set, uint64_t at) {
  const Whole<K, T> &w = Whole<K, T>::get(set);
  if (w.all[0].empty()) return "the whole file yields no record";
  const string f = scratch("A");
  { std::ofstream o(f); o << w.text.substr(0, at); }
  typename K::O o(f);
  string e;
  const Columns<T> got = K::view(o, e);
  steps += 2;
  if (!e.empty()) return "cut after " + str(at) + " bytes: " + e;
  e = prefix<T>(got, w.all);
  if (!e.empty()) return "cut after " + str(at) + " bytes: " + e;
  if (at < w.text.size() && !got[0].empty()) tally["cut inside the records"]++;
  // the damaged object copied to another file and read again shows the same
  o.writeFile(scratch("B"));
  typename K::O c(scratch("B"));
  steps += 2;
  const Columns<T> copied = K::view(c, e);
  if (!e.empty()) return "copy of the file cut after " + str(at) + " bytes: " + e;
  for (size_t i = 0; i < got.size(); i++) {
    // a cut inside the first line gives the copy a complete first line
    e = diffLists("", copied[i], got[i]);
    if (!e.empty()) return "copy of the file cut after " + str(at) + " bytes: column " + str(i) + e;
  }
  return "";
}

#ifndef CUT_NO_JUDGE
template <class T> string kind(const Key &k, uint64_t *size) {
  const int set = num(k[2]);
#define KIND(N, ...)                                                                                     \
  if (k[0] == N) {                                                                                       \
    if (size) { *size = Whole<__VA_ARGS__, T>::get(set).text.size(); return ""; }                        \
    return cut<__VA_ARGS__, T>(set, num(k[3]));                                                          \
  }
  KIND("pool1", Pool1<T>)
  KIND("pool2", Pool2<T>)
  KIND("response1", Resp1<T>)
  KIND("response2", Resp2<T>)
  KIND("comparison1", Comp<T, 1>)
  KIND("comparison2", Comp<T, 2>)
  return "no such kind";
}

string judge(const Key &k) {
  freshOutput();
  return k[1] == "float" ? kind<float>(k, nullptr) : kind<double>(k, nullptr);
}

void enumerate(bool, const std::function<void(const Key &)> &emit) {
  for (string n : {"pool1", "pool2", "response1", "response2", "comparison1", "comparison2"})
    for (string p : {"float", "double"})
      for (string s : {"0", "1"}) {
        uint64_t size = 0;
        const Key k = {n, p, s};
        p == "float" ? kind<float>(k, &size) : kind<double>(k, &size);
        for (uint64_t i = 0; i <= size; i++) emit({n, p, s, str(i)});
      }
}
#endif
}  // namespace diag
