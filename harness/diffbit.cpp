// C27: differing bit and bit strings.
#include "diag.hpp"

namespace diag {
void cleanup() {}

inline unsigned length(uint64_t d) { return d ? 64 - __builtin_clzll(d) : 0; }

template <class T> const vector<uint64_t> &lattice(bool thorough) {
  static vector<uint64_t> v;
  if (!v.empty()) return v;
  std::set<uint64_t> s;
  const int W = sizeof(T) * 8, M = std::numeric_limits<T>::digits - 1;
  const uint64_t mask = W == 64 ? ~0ull : (1ull << W) - 1;
  auto add = [&](uint64_t u) { s.insert(u & mask); };
  for (int i = 0; i <= W; i++)
    for (int64_t d : {-3, -2, -1, 0, 1, 2, 3}) {
      const uint64_t p = i == 64 ? 0 : 1ull << i;
      add(p + d);
      add(~p + d);
      add(ub(T(1)) + p + d);
      add(ub(T(1)) - p + d);
      if (thorough) { add((1ull << (W - 1)) + p + d); add(ub(std::numeric_limits<T>::infinity()) + p + d); add(ub(T(-1)) + p + d); }
    }
  for (int e = 0; e < (1 << (W - 1 - M)); e += thorough ? 1 : W == 64 ? 37 : 5)
    for (uint64_t m : {0ull, 1ull, (1ull << M) - 1})
      for (uint64_t sg : {0ull, 1ull}) add(sg << (W - 1) | (uint64_t)e << M | m);
  v.assign(s.begin(), s.end());
  return v;
}

template <class T> string pair(uint64_t a, uint64_t b) {
  const T x = mc::fromBits<T>(a), y = mc::fromBits<T>(b);
  const unsigned want = length(a > b ? a - b : b - a), got = vdth::diffbit(x, y), back = vdth::diffbit(y, x);
  if (got != want || back != want)
    return "differing bit of " + mc::hexf(x) + " and " + mc::hexf(y) + " is " + str(got) + " and " + str(back) + " instead of " + str(want);
  return "";
}
template <class T> string bitString(uint64_t a) {
  const int W = sizeof(T) * 8, M = std::numeric_limits<T>::digits - 1;
  char want[80];
  int n = 0;
  for (int i = W - 1; i >= 0; i--) {
    want[n++] = '0' + (a >> i & 1);
    if (i == W - 1 || i == M) want[n++] = ' ';
  }
  want[n] = 0;
  const string got = vdth::getbsasstr(mc::fromBits<T>(a));
  if (got != want) return "bit string of " + mc::hexf(mc::fromBits<T>(a)) + " is \"" + got + "\" instead of \"" + want + "\"";
  return "";
}
template <class T> string printing(uint64_t a, uint64_t b) {
  const T x = mc::fromBits<T>(a), y = mc::fromBits<T>(b);
  freshOutput();
  vdth::print_different_bit(x, y, true);
  const string s = printed(), first = s.substr(0, s.find('\n')), last = first.substr(first.rfind(' ') + 1);
  if (last != str(length(a > b ? a - b : b - a)) || s.find(vdth::getbsasstr(x)) == string::npos || s.find(vdth::getbsasstr(y)) == string::npos)
    return "printed \"" + s + "\" for " + mc::hexf(x) + " and " + mc::hexf(y);
  return "";
}

template <class T> string row(uint64_t i, bool thorough, bool print) {
  const vector<uint64_t> &l = lattice<T>(thorough);
  string e = bitString<T>(l[i]);
  steps++;
  for (size_t j = 0; j <= i && e.empty(); j++) {
    e = pair<T>(l[i], l[j]);
    steps += 2;
  }
  if (print && e.empty())
    for (size_t j = 0; j < l.size() && e.empty(); j += 97) { e = printing<T>(l[i], l[j]); steps++; }
  if (e.empty()) inner += i;
  return e;
}

string judge(const Key &k) {
  if (k[0] == "pair") return k[1] == "float" ? pair<float>(hex(k[2]), hex(k[3])) : pair<double>(hex(k[2]), hex(k[3]));
  if (k[0] == "row" || k[0] == "ROW") {
    const bool t = k[0] == "ROW";
    const uint64_t i = num(k[2]);
    return k[1] == "float" ? row<float>(i, t, i % 3 == 0) : row<double>(i, t, i % 3 == 0);
  }
  if (k[0] == "strings") {   // 2^16 neighbouring single precision values
    const uint64_t b = hex(k[1]), step = num(k[2]);
    for (uint64_t u = b; u < b + 65536; u += step) {
      steps++;
      inner++;
      const string e = bitString<float>(u);
      if (!e.empty()) return e;
    }
    inner--;
    return "";
  }
  // values: 2^20 single precision values against partners at every kind of distance
  const uint64_t b = hex(k[1]);
  for (uint64_t u = b; u < b + (1 << 20); u++) {
    const unsigned s = u % 32;
    steps += 2;
    string e = pair<float>(u, (u + (1ull << s)) & 0xffffffff);
    if (e.empty()) e = pair<float>(u, u);
    if (!e.empty()) return e;
  }
  inner += (1 << 20) - 1;
  return "";
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const char *row = thorough ? "ROW" : "row";
  for (size_t i = 0; i < lattice<float>(thorough).size(); i++) emit({row, "float", str(i)});
  for (size_t i = 0; i < lattice<double>(thorough).size(); i++) emit({row, "double", str(i)});
  char b[16];
  for (uint64_t u = 0; u < (1ull << 32) && !small; u += 1 << 20) { snprintf(b, sizeof b, "%08" PRIx64, u); emit({"values", b}); }
  for (uint64_t u = 0; u < (1ull << 32); u += small ? 1 << 26 : 1 << 16) {
    snprintf(b, sizeof b, "%08" PRIx64, u);
    emit({"strings", b, thorough ? "1" : "127"});
  }
}
}  // namespace diag
