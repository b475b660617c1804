// What a text must contain, in order.
#ifndef WANTS_HPP
#define WANTS_HPP
#include "cmpview.hpp"

namespace diag {

// One token the text must contain, in order: an exact word, or a number with a tolerance.
struct Want {
  string word;
  double v, rel, abs;
};
typedef vector<Want> Wants;
void text(Wants &w, const string &s) { w.push_back({s, 0, 0, 0}); }
void whole(Wants &w, uint64_t n) { text(w, str(n)); }
// six digits are what every stream shows at least
template <class T> void value(Wants &w, T x) { w.push_back({"", (double)x, 1e-5, 0}); }
void rough(Wants &w, double x, double abs) { w.push_back({"", x, 1e-6, abs}); }
template <class T> void bits(Wants &w, T x) {
  const int W = sizeof(T) * 8, M = std::numeric_limits<T>::digits - 1;
  string s;
  for (int i = W - 1; i >= 0; i--) {
    s += '0' + (ub(x) >> i & 1);
    if (i == W - 1 || i == M || i == 0) { text(w, s); s.clear(); }
  }
}
string show(const Want &w) { return w.word.empty() ? str(w.v) : "\"" + w.word + "\""; }
bool matches(const Want &w, const string &t) {
  if (!w.word.empty()) return t == w.word;
  char *e;
  const long double g = strtold(t.c_str(), &e);   // the largest number is printed rounded up
  if (*e || t.empty()) return false;
  if (w.v != w.v) return g != g;
  return g == w.v || std::fabs(g - w.v) <= w.rel * (long double)std::fabs(w.v) + w.abs;
}
string find(const Wants &w, const string &s) {
  string c = s;
  for (char &x : c) if (strchr("(),=/:\n\t", x)) x = ' ';
  const vector<string> t = tokens(c);
  size_t i = 0;
  for (size_t j = 0; j < t.size() && i < w.size(); j++) if (matches(w[i], t[j])) i++;
  if (i < w.size()) return "no " + show(w[i]) + " (" + str(i) + " of " + str(w.size()) + " items before it) in \"" + (s.size() > 400 ? s.substr(0, 400) + "..." : s) + "\"";
  return "";
}
}  // namespace diag
#endif
