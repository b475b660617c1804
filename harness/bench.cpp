// C30: files of the benchmark programs.
//   bench verify <dir> <nick> <size>   every response file against the functions themselves
//   bench make <dir>                   response files with chosen contents; prints them
#define DIAG_NO_MAIN
#include "diag.hpp"
#include "meaning.hpp"
#include "vdtdiag_fcnResponse.h"

namespace diag {
void cleanup() {}
string judge(const Key &) { return ""; }
void enumerate(bool, const std::function<void(const Key &)> &) {}

struct File { vector<string> head; vector<vector<uint64_t>> rows; bool ok = false; };
File load(const string &name) {
  File f;
  std::ifstream i(name);
  if (!i) return f;
  string l;
  for (int n = 0; n < 5; n++) { if (!getline(i, l)) return f; f.head.push_back(l); }
  while (getline(i, l)) {
    std::istringstream s(l);
    vector<uint64_t> r;
    for (string t; s >> t;) r.push_back(hex(t));
    f.rows.push_back(r);
  }
  f.ok = true;
  return f;
}

mc::Result res;
void fail(const string &key, const string &text) { res.fail(res.failures, key, text); }

template <class T> void verify(const string &dir, const string &nick, uint64_t size) {
  const bool sp = sizeof(T) == 4;
  std::map<string, vector<vector<uint64_t>>> inputs;   // of each function, without Fast_ and form
  for (auto &m : meaning<T>())
    for (int array = 0; array < 2; array++) {
      const string name = m.first + (sp ? "f" : "") + (array ? "v" : "");
      if (m.first == "Identity2D") continue;   // not written by the program
      const string key = "response " + str(size) + " " + name;
      res.states++;
      const File f = load(dir + "/" + nick + "__" + name + "__response.txt");
      if (!f.ok) { fail(key, "no complete file for " + name); continue; }
      const size_t D = m.second.g ? 2 : 1;
      if (f.head[1] != (sp ? "Single Precision" : "Double Precision")) fail(key, name + ": precision line \"" + f.head[1] + "\"");
      if (f.head[2].size() < name.size() || f.head[2].substr(f.head[2].size() - name.size()) != name) fail(key, name + ": name line \"" + f.head[2] + "\"");
      if (f.rows.size() != size) { fail(key, name + ": " + str(f.rows.size()) + " entries instead of " + str(size)); continue; }
      vector<vector<uint64_t>> in;
      bool good = true;
      for (size_t i = 0; i < size && good; i++) {
        res.transitions++;
        if (f.rows[i].size() != D + 1) { fail(key, name + ": entry " + str(i) + " has " + str(f.rows[i].size()) + " fields"); good = false; break; }
        const T x = mc::fromBits<T>(f.rows[i][0]), y = mc::fromBits<T>(f.rows[i][D - 1]), o = mc::fromBits<T>(f.rows[i][D]);
        const T want = D == 2 ? m.second.g(x, y) : m.second.f(x);
        if (!same(o, want)) { fail(key, name + ": entry " + str(i) + " holds " + mc::hexf(o) + " instead of " + mc::hexf(want)); good = false; }
        if (!(x >= m.second.lo && x <= m.second.hi)) { fail(key, name + ": input " + mc::hexf(x) + " outside the domain"); good = false; }
        in.push_back(vector<uint64_t>(f.rows[i].begin(), f.rows[i].begin() + D));
      }
      if (!good) continue;
      string b = m.first.substr(0, 5) == "Fast_" ? m.first.substr(5) : m.first;
      if (b.substr(0, 4) == "Apr_") b = b.substr(4);
      if (b == "Inv") b = "Inverse";
      if (!inputs.count(b)) inputs[b] = in;
      else if (inputs[b] != in) fail(key, name + ": inputs differ from those of its counterpart");
      if (size == 17 && res.samples.size() < 6) res.samples.push_back(key);
    }
}

template <class T> void one(const string &dir, const string &file, const string &fn, const vector<T> &x, const vector<T> &o) {
  size_t i = 0;
  fcnResponse1D<T> r(fn, x, std::function<T(T)>([&](T) { return o[i++]; }));
  r.writeFile(dir + "/" + file);
}
template <class T> void two(const string &dir, const string &file, const string &fn, const vector<T> &x, const vector<T> &y, const vector<T> &o) {
  size_t i = 0;
  fcnResponse2D<T> r(fn, x, y, std::function<T(T, T)>([&](T, T) { return o[i++]; }));
  r.writeFile(dir + "/" + file);
}
template <class T> string list(const vector<T> &v) {
  string s;
  for (T x : v) s += (s.empty() ? "" : ",") + str((uint64_t)ub(x));
  return "[" + s + "]";
}
bool first = true;
// one reference and one test file with given distances of the bit patterns
template <class T> void pairOf(const string &dir, const string &id, const string &fn, const string &tfn, const vector<uint64_t> &dist, bool twoD) {
  vector<T> x, y, a, b;
  typedef typename mc::U<T>::type B;
  for (size_t i = 0; i < dist.size(); i++) {
    x.push_back(T(i) * T(0.75) - T(1.5));
    y.push_back(T(3) - T(i));
    a.push_back(mc::fromBits<T>(ub(T(1)) + B(i * 17)));
    b.push_back(mc::fromBits<T>(B(ub(a.back()) + B(dist[i]))));
  }
  const string r = "ref" + id + "__" + fn + "__response.txt", t = "tst" + id + "__" + tfn + "__response.txt";
  if (twoD) { two<T>(dir, r, fn, x, y, a); two<T>(dir, t, tfn, x, y, b); }
  else { one<T>(dir, r, fn, x, a); one<T>(dir, t, tfn, x, b); }
  printf("%s{\"id\":\"%s\",\"fn\":\"%s\",\"tfn\":\"%s\",\"ref\":\"%s\",\"test\":\"%s\",\"two\":%s,\"bits\":%d,\"x\":%s,\"y\":%s,\"a\":%s,\"b\":%s}", first ? "" : ",", id.c_str(), fn.c_str(), tfn.c_str(), r.c_str(), t.c_str(),
         twoD ? "true" : "false", (int)sizeof(T) * 8, list(x).c_str(), list(y).c_str(), list(a).c_str(), list(b).c_str());
  first = false;
}
}  // namespace diag

int main(int argc, char **argv) {
  using namespace diag;
  const string mode = argv[1];
  if (mode == "verify") {
    verify<double>(argv[2], argv[3], num(argv[4]));
    verify<float>(argv[2], argv[3], num(argv[4]));
    mc::print(res);
    return 0;
  }
  if (mode == "make") {
    const string d = argv[2];
    printf("{\"files\":[");
    pairOf<double>(d, "0", "Exp", "Fast_Exp", {0, 1, 2, 0x100, 0}, false);
    pairOf<double>(d, "1", "Fast_Sin", "Fast_Sinv", {5}, false);
    pairOf<float>(d, "2", "Expf", "Fast_Expf", {0, 0, 0}, false);
    pairOf<float>(d, "3", "Sinfv", "Fast_Sinfv", {7, 0x10000, 1, 0x4000000}, false);
    pairOf<double>(d, "4", "Atan2", "Fast_Atan2", {1, 0, 3, 1ull << 40}, true);
    pairOf<float>(d, "5", "Fast_Atan2f", "Fast_Atan2fv", {0, 1, 9, 0x123456}, true);
    pairOf<double>(d, "6", "Fast_Apr_Isqrt", "Isqrt", {1ull << 20, 1ull << 21, 3}, false);
    printf("]}\n");
    return 0;
  }
  return 2;
}
