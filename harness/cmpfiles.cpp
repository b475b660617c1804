// Comparison files for the histogram script, with what they hold.
//   cmpfiles <directory> <nick> <longest list> <shift of the contents>
//   cmpfiles <directory> <nick> domains        one file per function, with the ends of its interval
#define DIAG_NO_MAIN
#include "cmpview.hpp"
#include <cmath>

namespace diag {
string judge(const Key &) { return ""; }
void enumerate(bool, const std::function<void(const Key &)> &) {}
void number(double x) {
  if (x != x) printf("\"nan\"");
  else if (std::isinf(x)) printf(x > 0 ? "\"inf\"" : "\"-inf\"");
  else printf("%.17g", x);
}
bool first = true;
int shift = 0;
template <class T, int D> void make(const string &dir, const string &nick, const vector<int> &w) {
  static const T X[] = {T(0.5), T(-4999.25), T(1e-30), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(3)};
  static const T O[] = {T(1), T(-0.25), T(1e20), T(0), T(7), T(-1e-20)};
  static const uint64_t G[] = {0, 1, 6, 255, 1u << 20, 77777};
  vector<T> in[2], a, b;
  string name = string(D == 2 ? "Two" : "One") + (sizeof(T) == 4 ? "f" : "") + "_";
  for (int j : w) {
    name += char('a' + j);
    const int i = (j + shift) % 6;
    for (int d = 0; d < D; d++) in[d].push_back(X[(i + d * 2) % 6]);
    a.push_back(O[i]);
    b.push_back(mc::fromBits<T>(ub(O[i]) + G[i]));
  }
  std::unique_ptr<typename Cmp<T, D>::Object> o(Cmp<T, D>::make(in, a, b));
  o->writeFile(dir + "/comparison__" + nick + "__" + name + ".txt");
  printf("%s{\"name\": \"%s\", \"bits\": %d, \"records\": [", first ? "" : ",\n", name.c_str(), (int)sizeof(T) * 8);
  first = false;
  for (size_t i = 0; i < a.size(); i++) {
    printf("%s[", i ? ", " : "");
    number(in[0][i]);
    printf(", %d]", (int)distance(a[i], b[i]));
  }
  printf("]}");
}
template <class T, int D> void ends(const string &dir, const string &nick, const string &name, T lo, T hi) {
  vector<T> in[2], a, b;
  for (int i = 0; i <= 8; i++) {
    for (int d = 0; d < D; d++) in[d].push_back(i == 8 ? hi : lo + (hi - lo) * T(i) / 8);
    a.push_back(T(1));
    b.push_back(mc::fromBits<T>(ub(T(1)) + (uint64_t(1) << i)));
  }
  std::unique_ptr<typename Cmp<T, D>::Object> o(Cmp<T, D>::make(in, a, b));
  o->writeFile(dir + "/comparison__" + nick + "__" + name + ".txt");
  printf("%s{\"name\": \"%s\", \"bits\": %d, \"domain\": [%.17g, %.17g], \"records\": [", first ? "" : ",\n", name.c_str(), (int)sizeof(T) * 8, (double)lo, (double)hi);
  first = false;
  for (size_t i = 0; i < a.size(); i++) printf("%s[%.17g, %d]", i ? ", " : "", (double)in[0][i], (int)distance(a[i], b[i]));
  printf("]}");
}
void domains(const string &dir, const string &nick) {
  for (string f : {"Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Isqrt", "Log", "Sin", "Tan", "Tanh"})
    for (string fast : {"", "Fast_"})
      for (string v : {"", "v"}) {
        const bool one = f == "Acos" || f == "Asin", pos = f == "Isqrt" || f == "Log";
        const double hi = one ? 1 : f == "Exp" ? 705 : 5000, lo = pos ? 0 : -hi;
        const float hs = f == "Exp" ? 85 : hi, ls = f == "Exp" ? -85 : lo;
        if (f == "Atan2") { ends<double, 2>(dir, nick, fast + f + v, lo, hi); ends<float, 2>(dir, nick, fast + f + "f" + v, ls, hs); }
        else { ends<double, 1>(dir, nick, fast + f + v, lo, hi); ends<float, 1>(dir, nick, fast + f + "f" + v, ls, hs); }
      }
}
void words(const string &dir, const string &nick, size_t n, vector<int> w) {
  if (!w.empty()) {
    make<double, 1>(dir, nick, w);
    make<float, 1>(dir, nick, w);
    make<double, 2>(dir, nick, w);
    make<float, 2>(dir, nick, w);
  }
  if (w.size() == n) return;
  for (int i = 0; i < 6; i++) { w.push_back(i); words(dir, nick, n, w); w.pop_back(); }
}
}  // namespace diag

int main(int, char **v) {
  printf("[");
  if (diag::string(v[3]) == "domains") diag::domains(v[1], v[2]);
  else {
    diag::shift = atoi(v[4]);
    diag::words(v[1], v[2], atoi(v[3]), {});
  }
  printf("]\n");
  return 0;
}
