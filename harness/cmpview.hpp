// What a comparison object shows of itself: statistics, printed table, file.
#ifndef CMPVIEW_HPP
#define CMPVIEW_HPP
#include "diaghist.hpp"
#include "vdtdiag_fcnComparison.h"

namespace diag {

template <class T> unsigned distance(T a, T b) {
  uint64_t x = ub(a), y = ub(b), d = x > y ? x - y : y - x;
  unsigned n = 0;
  while (d) { n++; d >>= 1; }
  return n;
}

struct Stats { unsigned max, min; double mean, rms; bool hasRms; };
template <class T> Stats expected(const vector<T> &a, const vector<T> &b) {
  Stats s = {0, 1000, 0, 0, a.size() > 1};
  long double sum = 0, dev = 0;
  for (size_t i = 0; i < a.size(); i++) {
    const unsigned d = distance(a[i], b[i]);
    s.max = std::max(s.max, d);
    s.min = std::min(s.min, d);
    sum += d;
  }
  const long double mean = sum / a.size();
  for (size_t i = 0; i < a.size(); i++) dev += (distance(a[i], b[i]) - mean) * (distance(a[i], b[i]) - mean);
  s.mean = mean;
  if (s.hasRms) s.rms = std::sqrt(dev / (a.size() - 1));
  return s;
}
inline bool near(double got, double want) { return std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)); }
// a number printed with two significant or two fractional digits
inline bool nearPrinted(double got, double want) {
  const double a = std::fabs(want);
  const double tol = a >= 10 ? 0.5 : a >= 1 ? 0.05 : 0.005;
  return std::fabs(got - want) <= tol * 1.0001 + 1e-12;
}
inline vector<string> lines(const string &s) {
  vector<string> v;
  std::istringstream i(s);
  for (string l; getline(i, l);) v.push_back(l);
  return v;
}
inline vector<string> tokens(const string &s) {
  vector<string> v;
  std::istringstream i(s);
  for (string l; i >> l;) v.push_back(l);
  return v;
}
inline string slurp(const string &f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

template <class T, int D> struct Cmp;
template <class T> struct Cmp<T, 1> {
  typedef fcnComparison1D<T> Object;
  static Object *make(const vector<T> *in, const vector<T> &a, const vector<T> &b) { return new Object("Some_name", in[0], a, b); }
};
template <class T> struct Cmp<T, 2> {
  typedef fcnComparison2D<T> Object;
  static Object *make(const vector<T> *in, const vector<T> &a, const vector<T> &b) { return new Object("Some_name", in[0], in[1], a, b); }
};

template <class T> string numberText(const string &t, T want, bool exact) {
  char *e;
  const string u = !t.empty() && t.back() == ',' ? t.substr(0, t.size() - 1) : t;
  const double v = strtod(u.c_str(), &e);
  if (*e || u.empty()) return "\"" + t + "\" is not a number";
  if (want != want) return v != v ? "" : "\"" + t + "\" instead of a NaN";
  if (exact ? (T)v != want : !((T)v == want || std::fabs(v - (double)want) <= 1e-5 * std::fabs((double)want) + 1e-5))
    return "\"" + t + "\" instead of " + mc::hexf(want);
  return "";
}

// statistics as printed, in both layouts
template <class O> string checkStats(O &o, const Stats &s, const string &name) {
  if (o.hasDifference() != (s.max > 0)) return string("a difference is ") + (s.max ? "not " : "") + "reported";
  freshOutput();
  o.printStats();
  steps++;
  vector<string> l = lines(printed());
  double v[4];
  int n = 0;
  for (auto &x : l) {
    const size_t c = x.rfind(": ");
    char *e;
    if (c == string::npos) continue;
    const double d = strtod(x.c_str() + c + 2, &e);
    if (*e || n == 4) continue;
    v[n++] = d;
  }
  if (n != 4) return "printed statistics have " + str(n) + " numbers";
  if (v[0] != s.max || v[1] != s.min) return "printed maximum " + str(v[0]) + ", minimum " + str(v[1]) + " instead of " + str(s.max) + ", " + str(s.min);
  if (!nearPrinted(v[2], s.mean)) return "printed mean " + str(v[2]) + " instead of " + str(s.mean);
  if (s.hasRms && !nearPrinted(v[3], s.rms)) return "printed RMS " + str(v[3]) + " instead of " + str(s.rms);
  freshOutput();
  o.printStats(true);
  steps++;
  vector<string> t = tokens(printed());
  if (t.size() < 5) return "table row has too few columns";
  const size_t b = t.size() - 4;
  if (!name.empty() && t[0] != name) return "table row is named " + t[0];
  if (atof(t[b].c_str()) != s.max || atof(t[b + 1].c_str()) != s.min) return "table row has " + t[b] + " " + t[b + 1] + " instead of " + str(s.max) + " " + str(s.min);
  if (!nearPrinted(atof(t[b + 2].c_str()), s.mean)) return "table row has mean " + t[b + 2] + " instead of " + str(s.mean);
  if (s.hasRms && !nearPrinted(atof(t[b + 3].c_str()), s.rms)) return "table row has RMS " + t[b + 3] + " instead of " + str(s.rms);
  return "";
}

// the records as printed: inputs, both results with their bits, differing bit
template <class T> struct Record { vector<string> in; uint64_t a, b; long d; };
template <class T, int D, class O> string records(O &o, vector<Record<T>> &out) {
  freshOutput();
  o.print();
  steps++;
  for (auto &l : lines(printed())) {
    const size_t q = l.find(" ) = ");
    const size_t p = l.find("( ");
    if (q == string::npos || p == string::npos || p > q) continue;
    Record<T> r;
    r.in = tokens(l.substr(p + 2, q - p - 2));
    vector<string> t = tokens(l.substr(q + 5));
    if (r.in.size() != D || t.size() != 5) return "unexpected line \"" + l + "\"";
    r.a = hex(t[2]);
    r.b = hex(t[3]);
    r.d = atol(t[4].c_str());
    out.push_back(r);
  }
  return "";
}
template <class T, int D> string checkRecord(const Record<T> &r, const vector<T> *in, T a, T b, size_t i) {
  for (int d = 0; d < D; d++) {
    const string e = numberText<T>(r.in[d], in[d][i], true);
    if (!e.empty()) return "record " + str(i) + " input " + e;
  }
  if (r.a != ub(a) || r.b != ub(b)) return "record " + str(i) + " shows other results";
  if (r.d != (long)distance(a, b)) return "record " + str(i) + " shows differing bit " + str(r.d) + " instead of " + str(distance(a, b));
  return "";
}
template <class T, int D, class O> string checkObject(O &o, const vector<T> *in, const vector<T> &a, const vector<T> &b, const string &name, size_t some = 1u << 30) {
  string e = checkStats(o, expected(a, b), name);
  if (!e.empty()) return e;
  vector<Record<T>> r;
  e = records<T, D>(o, r);
  if (!e.empty()) return e;
  if (r.size() != a.size()) return str(r.size()) + " records instead of " + str(a.size());
  for (size_t i = 0; i < a.size() && e.empty(); i++) e = checkRecord<T, D>(r[i], in, a[i], b[i], i);
  return e;
}
template <class T, int D> string checkFile(const string &f, const vector<T> *in, const vector<T> &a, const vector<T> &b) {
  const vector<string> l = lines(slurp(f));
  if (l.size() != 6 + a.size()) return "file has " + str(l.size()) + " lines for " + str(a.size()) + " records";
  const Stats s = expected(a, b);
  vector<string> t = tokens(l[5]);
  if (t.size() != 4) return "statistics line \"" + l[5] + "\"";
  if (num(t[0]) != s.max || num(t[1]) != s.min) return "file has maximum " + t[0] + ", minimum " + t[1];
  if (!near(mc::fromBits<double>(hex(t[2])), s.mean)) return "file has mean " + str(mc::fromBits<double>(hex(t[2]))) + " instead of " + str(s.mean);
  if (s.hasRms && !near(mc::fromBits<double>(hex(t[3])), s.rms)) return "file has RMS " + str(mc::fromBits<double>(hex(t[3]))) + " instead of " + str(s.rms);
  for (size_t i = 0; i < a.size(); i++) {
    t = tokens(l[6 + i]);
    if (t.size() != 2 * D + 3) return "record line \"" + l[6 + i] + "\"";
    for (int d = 0; d < D; d++) {
      if (hex(t[d]) != ub(in[d][i])) return "file record " + str(i) + " has input " + t[d];
      const string e = numberText<T>(t[D + 3 + d], in[d][i], false);
      if (!e.empty()) return "file record " + str(i) + " decimal input " + e;
    }
    if (hex(t[D]) != ub(a[i]) || hex(t[D + 1]) != ub(b[i])) return "file record " + str(i) + " has other results";
    if (num(t[D + 2]) != distance(a[i], b[i])) return "file record " + str(i) + " has differing bit " + t[D + 2];
  }
  return "";
}
}  // namespace diag
#endif
