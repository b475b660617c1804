// C32: tables of functions.
#include "diag.hpp"
#include "vdtdiag_fcnTuples.h"
#include "meaning.hpp"

namespace diag {
void cleanup() {}

template <class T> struct Tables {
  randomPool<T> sym, pos, one, ex;
  randomPool2D<T> two;
  vector<genfpfcn_tuple<T>> s1;
  vector<genfpfcnv_tuple<T>> v1;
  vector<genfpfcn2D_tuple<T>> s2;
  vector<genfpfcn2Dv_tuple<T>> v2;
  // the pools of the benchmark programs
  Tables() : sym(-5000, 5000, 300), pos(T(1e-4), 5000, 300), one(-1, 1, 300), ex(sizeof(T) == 8 ? -705 : -85, sizeof(T) == 8 ? 705 : 85, 300), two(-1, -1, 1, 1, 300) {
    getFunctionTuples(&s1, sym, pos, one, ex);
    getFunctionTuplesvect(&v1, sym, pos, one, ex);
    getFunctionTuples(&s2, two);
    getFunctionTuplesvect(&v2, two);
  }
  static Tables &get() { static Tables t; return t; }
};

// arguments that tell the functions apart, inside the domain
template <class T> vector<T> arguments(T lo, T hi) {
  vector<T> v;
  for (T x : {T(0.5), T(-0.5), T(0.75), T(1e-3), T(-0.99), T(1), T(-1), T(0), T(2), T(3.25), T(-7), T(20), T(-20), T(80), T(-80), T(100), T(-100), T(1234.5), T(4999), T(-4999), T(0.25), T(0.1)})
    if (x >= lo && x <= hi && x != 0) v.push_back(x);
  const T l = std::max(lo, T(-5000)), h = std::min(hi, T(5000));
  for (int i = 0; i <= 400; i++) { const T x = l + (h - l) * T(i) / T(400); if (x >= lo && x <= hi && x != 0) v.push_back(x); }
  return v;
}

template <class T> string value(const string &n, T x, T got, T want) {
  if (same(got, want)) return "";
  return n + "(" + mc::hexf(x) + ") gives " + mc::hexf(got) + " instead of " + mc::hexf(want);
}
template <class T> string pool(const string &n, const vector<T> &in, T lo, T hi) {
  if (in.empty()) return n + " has no inputs";
  for (T x : in) if (!(x >= lo && x <= hi)) return n + " has the input " + mc::hexf(x) + " outside its domain";
  return "";
}

template <class T> string entry(const string &table, uint64_t i) {
  Tables<T> &t = Tables<T>::get();
  const std::map<string, Fn<T>> m = meaning<T>();
  const bool array = table[0] == 'v';
  const string name = table == "s1" ? std::get<0>(t.s1[i]) : table == "v1" ? std::get<0>(t.v1[i]) : table == "s2" ? std::get<0>(t.s2[i]) : std::get<0>(t.v2[i]);
  const string b = base<T>(name, array);
  const auto it = m.find(b);
  if (it == m.end()) return "";   // a further function: only its inputs could be judged
  const Fn<T> f = it->second;
  string e;
  if (table[1] == '1') {
    if (!f.f) return name + " takes two arguments";
    const vector<T> &in = table == "s1" ? std::get<2>(t.s1[i]) : std::get<2>(t.v1[i]);
    e = pool(name, in, f.lo, f.hi);
    if (!e.empty()) return e;
    vector<T> x = arguments<T>(f.lo, f.hi);
    x.insert(x.end(), in.begin(), in.end());
    vector<T> o(x.size(), T(-77));
    if (array) std::get<1>(t.v1[i])((uint32_t)x.size(), x.data(), o.data());
    else for (size_t j = 0; j < x.size(); j++) o[j] = std::get<1>(t.s1[i])(x[j]);
    steps += x.size();
    for (size_t j = 0; j < x.size() && e.empty(); j++) e = value(name, x[j], o[j], f.f(x[j]));
  } else {
    if (!f.g) return name + " takes one argument";
    const vector<T> &inx = table == "s2" ? std::get<2>(t.s2[i]) : std::get<2>(t.v2[i]), &iny = table == "s2" ? std::get<3>(t.s2[i]) : std::get<3>(t.v2[i]);
    if (inx.size() != iny.size() || inx.empty()) return name + " has unequal inputs";
    if (&inx == &iny) return name + " uses one list for both arguments";
    vector<T> x = inx, y = iny;
    const vector<T> a = arguments<T>(-5000, 5000);
    for (size_t j = 0; j < a.size(); j++) { x.push_back(a[j]); y.push_back(a[(j * 7 + 3) % a.size()]); }
    vector<T> o(x.size(), T(-77));
    if (array) std::get<1>(t.v2[i])((uint32_t)x.size(), x.data(), y.data(), o.data());
    else for (size_t j = 0; j < x.size(); j++) o[j] = std::get<1>(t.s2[i])(x[j], y[j]);
    steps += x.size();
    for (size_t j = 0; j < x.size() && e.empty(); j++) e = value(name, x[j], o[j], f.g(x[j], y[j]));
  }
  return e;
}

template <class T> vector<string> names(const string &table) {
  Tables<T> &t = Tables<T>::get();
  vector<string> v;
  if (table == "s1") for (auto &x : t.s1) v.push_back(std::get<0>(x));
  if (table == "v1") for (auto &x : t.v1) v.push_back(std::get<0>(x));
  if (table == "s2") for (auto &x : t.s2) v.push_back(std::get<0>(x));
  if (table == "v2") for (auto &x : t.v2) v.push_back(std::get<0>(x));
  return v;
}

// every name once, with the suffix of its table, and all known functions present
template <class T> string whole(const string &table) {
  const vector<string> n = names<T>(table);
  std::set<string> seen;
  for (auto &x : n) {
    if (!seen.insert(x).second) return "table " + table + " lists " + x + " twice";
    if (base<T>(x, table[0] == 'v').empty()) return "table " + table + " lists " + x + ", whose suffix belongs to another table";
  }
  const string suffix = string(sizeof(T) == 4 ? "f" : "") + (table[0] == 'v' ? "v" : "");
  for (auto &x : meaning<T>())
    if ((x.second.f != nullptr) == (table[1] == '1') && !seen.count(x.first + suffix)) return "table " + table + " lacks " + x.first + suffix;
  steps += n.size();
  return "";
}

// a function, its fast and its array forms are given equal inputs
template <class T> string inputs() {
  Tables<T> &t = Tables<T>::get();
  std::map<string, std::pair<string, vector<vector<T>>>> seen;
  auto note = [&](const string &name, bool array, const vector<vector<T>> &in) -> string {
    steps++;
    string b = base<T>(name, array);
    if (!meaning<T>().count(b)) return "";
    if (b.substr(0, 5) == "Fast_") b = b.substr(5);
    if (b.substr(0, 4) == "Apr_") b = b.substr(4);
    if (b == "Inv") b = "Inverse";
    if (!seen.count(b)) { seen[b] = {name, in}; return ""; }
    return seen[b].second == in ? "" : name + " has other inputs than " + seen[b].first;
  };
  string e;
  for (auto &x : t.s1) if (e.empty()) e = note(std::get<0>(x), false, {std::get<2>(x)});
  for (auto &x : t.v1) if (e.empty()) e = note(std::get<0>(x), true, {std::get<2>(x)});
  for (auto &x : t.s2) if (e.empty()) e = note(std::get<0>(x), false, {std::get<2>(x), std::get<3>(x)});
  for (auto &x : t.v2) if (e.empty()) e = note(std::get<0>(x), true, {std::get<2>(x), std::get<3>(x)});
  return e;
}

string basicNames() {
  vector<string> got;
  getFunctionBasicNames(&got);
  getFunctionBasicNames(&got);   // a second call replaces the first
  steps += 2;
  vector<string> want = {"Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse"};
  for (auto &w : want)
    if (std::count(got.begin(), got.end(), w) != 1) return "basic names list " + w + " " + str(std::count(got.begin(), got.end(), w)) + " times";
  for (auto &g : got)
    if (g.find("Fast") != string::npos || g.find("Identity") != string::npos) return "basic names list " + g;
  return "";
}

string judge(const Key &k) {
  freshOutput();
  if (k[0] == "basic") return basicNames();
  const bool sp = k[1] == "float";
  if (k[0] == "inputs") return sp ? inputs<float>() : inputs<double>();
  if (k[0] == "table") return sp ? whole<float>(k[2]) : whole<double>(k[2]);
  return sp ? entry<float>(k[2], num(k[3])) : entry<double>(k[2], num(k[3]));
}

void enumerate(bool, const std::function<void(const Key &)> &emit) {
  emit({"basic", "names"});
  for (string p : {"float", "double"}) emit({"inputs", p});
  for (string p : {"float", "double"})
    for (string t : {"s1", "v1", "s2", "v2"}) {
      emit({"table", p, t});
      const size_t n = p == "float" ? names<float>(t).size() : names<double>(t).size();
      for (size_t i = 0; i < n; i++) emit({"entry", p, t, str(i)});
    }
}
}  // namespace diag
