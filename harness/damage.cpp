// C35: files with one byte changed, removed or added.
#define CUT_NO_JUDGE
#include "cut.cpp"

namespace diag {

// records complete before each position: those a reader of the prefix returns, but the last
template <class K, class T> const vector<size_t> &complete(int set) {
  static vector<size_t> n[2];
  if (n[set].empty()) {
    const Whole<K, T> &w = Whole<K, T>::get(set);
    for (size_t at = 0; at <= w.text.size(); at++) {
      { std::ofstream o(scratch("A")); o << w.text.substr(0, at); }
      typename K::O o(scratch("A"));
      string e;
      size_t lo = ~size_t(0);
      for (auto &c : K::view(o, e)) lo = std::min(lo, c.size());
      n[set].push_back(lo ? lo - 1 : 0);
    }
    freshOutput();
  }
  return n[set];
}

// inside the first line, which names the contents
bool headed(const string &t, size_t at) { return at <= t.find('\n'); }

template <class K, class T> string damaged(int set, size_t at, const string &how) {
  const Whole<K, T> &w = Whole<K, T>::get(set);
  string t = w.text;
  const char c = (char)num(how.substr(1));
  if (how[0] == 'r') t[at] = c;
  if (how[0] == 'd') t.erase(at, 1);
  if (how[0] == 'i') t.insert(at, 1, c);
  { std::ofstream o(scratch("A")); o << t; }
  typename K::O o(scratch("A"));
  string e;
  const Columns<T> got = K::view(o, e);
  steps += 2;
  if (!e.empty()) return "";   // the printed form is not readable, the object is
  const size_t keep = complete<K, T>(set)[at];
  if (keep) tally["records before the damage"]++;
  for (size_t col = 0; col < got.size(); col++) {
    if (got[col].size() < keep) return str(got[col].size()) + " records instead of at least " + str(keep) + " complete before byte " + str(at);
    for (size_t i = 0; i < keep; i++)
      if (ub(got[col][i]) != ub(w.all[col][i])) return "record " + str(i) + ", complete before byte " + str(at) + ", differs in column " + str(col) + ": " + mc::hexf(got[col][i]) + " instead of " + mc::hexf(w.all[col][i]);
  }
  // a digit in place of another one costs its own record only
  if (how[0] == 'r' && isdigit((unsigned char)w.text[at]) && isdigit((unsigned char)c) && w.text[at + 1] != 'x' && !headed(w.text, at)) {
    tally["digits changed"]++;
    size_t bad = ~size_t(0);
    for (size_t col = 0; col < got.size(); col++) {
      if (got[col].size() != w.all[col].size()) return str(got[col].size()) + " records instead of " + str(w.all[col].size()) + " after one changed digit";
      for (size_t i = 0; i < got[col].size(); i++)
        if (ub(got[col][i]) != ub(w.all[col][i])) {
          if (bad != ~size_t(0) && bad != i) return "records " + str(bad) + " and " + str(i) + " differ after one changed digit";
          bad = i;
        }
    }
  }
  // every record takes some bytes of the file
  if (got[0].size() > t.size()) return str(got[0].size()) + " records in a file of " + str(t.size()) + " bytes";
  return "";
}

// about where the first record begins
template <class K, class T> uint64_t start(int set) {
  const vector<size_t> &n = complete<K, T>(set);
  uint64_t at = 0;
  while (at + 1 < n.size() && !n[at]) at++;
  return at > 60 ? at - 60 : 0;
}

template <class T> string kindOf(const Key &k, uint64_t *size) {
  const int set = num(k[2]);
#define DKIND(N, ...)                                                                                    \
  if (k[0] == N) {                                                                                       \
    if (size) { size[0] = Whole<__VA_ARGS__, T>::get(set).text.size(); size[1] = start<__VA_ARGS__, T>(set); return ""; }                      \
    return damaged<__VA_ARGS__, T>(set, num(k[3]), k[4]);                                                \
  }
  DKIND("pool1", Pool1<T>)
  DKIND("pool2", Pool2<T>)
  DKIND("response1", Resp1<T>)
  DKIND("response2", Resp2<T>)
  DKIND("comparison1", Comp<T, 1>)
  DKIND("comparison2", Comp<T, 2>)
  return "no such kind";
}

string judge(const Key &k) {
  freshOutput();
  return k[1] == "float" ? kindOf<float>(k, nullptr) : kindOf<double>(k, nullptr);
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  for (string n : {"pool1", "pool2", "response1", "response2", "comparison1", "comparison2"})
    for (string p : {"float", "double"})
      for (string s : {"0", "1"}) {
        uint64_t size[2] = {0, 0};
        const Key k = {n, p, s};
        p == "float" ? kindOf<float>(k, size) : kindOf<double>(k, size);
        vector<int> few, bytes;
        for (char b : string(thorough ? "09f -.\nx\xff" : small ? "9\n" : "9 \nx")) few.push_back((unsigned char)b);
        if ((s == "1" || thorough) && !small) for (int b = 0; b < 256; b++) bytes.push_back(b);
        else bytes = few;
        for (uint64_t i = 0; i < size[0]; i++) {
          for (int b : i < size[1] ? few : bytes) emit({n, p, s, str(i), "r" + str(b)});
          for (int b : few) emit({n, p, s, str(i), "i" + str(b)});
          emit({n, p, s, str(i), "d"});
        }
      }
}
}  // namespace diag
