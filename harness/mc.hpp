// Shared pieces of the exhaustive explorers: parallel enumeration of an indexed
// space, deterministic selection of the first failing index, small JSON output.
#ifndef MC_HPP
#define MC_HPP
#include <atomic>
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace mc {

inline unsigned threads() {
  const char *e = getenv("MC_THREADS");
  if (e) return (unsigned)atoi(e);
  unsigned n = std::thread::hardware_concurrency();
  return n ? n : 4;
}

template <class To, class From> inline To bits(From f) {
  static_assert(sizeof(To) == sizeof(From), "size");
  To t;
  memcpy(&t, &f, sizeof t);
  return t;
}
inline uint32_t ub(float x) { return bits<uint32_t>(x); }
inline uint64_t ub(double x) { return bits<uint64_t>(x); }
template <class T> struct U;
template <> struct U<float> { typedef uint32_t type; typedef double ref; };
template <> struct U<double> { typedef uint64_t type; typedef long double ref; };
template <class T> inline T fromBits(uint64_t u) { return bits<T>((typename U<T>::type)u); }

// bitwise equality with all NaNs identified
template <class T> inline bool same(T a, T b) {
  if (a != a) return b != b;
  return ub(a) == ub(b);
}

inline std::string hexf(float x) { char b[64]; snprintf(b, sizeof b, "%a[%08" PRIx32 "]", (double)x, ub(x)); return b; }
inline std::string hexf(double x) { char b[64]; snprintf(b, sizeof b, "%a[%016" PRIx64 "]", x, ub(x)); return b; }

template <class T> inline typename U<T>::ref ulpOf(typename U<T>::ref r) {
  typedef typename U<T>::ref R;
  const int P = std::numeric_limits<T>::digits;
  const int EMIN = std::numeric_limits<T>::min_exponent;
  r = std::fabs(r);
  if (!(r > 0)) return std::ldexp((R)1, EMIN - P);
  int e;
  std::frexp(r, &e);
  if (e < EMIN) e = EMIN;
  return std::ldexp((R)1, e - P);
}

struct Violation {
  uint64_t index;
  std::string key;   // argument of the replay command
  std::string text;
};

// Result of one exploration; merged over threads, smallest index wins.
struct Result {
  uint64_t states = 0, transitions = 0, failures = 0;
  std::vector<Violation> first;
  std::map<std::string, uint64_t> counts;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<double, std::string>> worst;
  void fail(uint64_t idx, const std::string &key, const std::string &text) {
    failures++;
    if (first.size() < 4) first.push_back({idx, key, text});
    else {
      size_t m = 0;
      for (size_t i = 1; i < first.size(); i++) if (first[i].index > first[m].index) m = i;
      if (idx < first[m].index) first[m] = {idx, key, text};
    }
  }
  void merge(const Result &o) {
    states += o.states; transitions += o.transitions;
    uint64_t f = failures + o.failures;
    for (auto &v : o.first) fail(v.index, v.key, v.text);
    failures = f;
    for (auto &c : o.counts) counts[c.first] += c.second;
    for (auto &s : o.samples) if (samples.size() < 40) samples.push_back(s);
    for (auto &w : o.worst) {
      auto it = worst.find(w.first);
      if (it == worst.end() || w.second.first > it->second.first) worst[w.first] = w.second;
    }
  }
};

// Runs body(begin,end,result) over [0,n) in chunks on all cores.
template <class Body> Result explore(uint64_t n, uint64_t chunk, Body body) {
  unsigned T = threads();
  std::vector<Result> rs(T);
  std::vector<std::thread> th;
  std::atomic<uint64_t> next(0);
  for (unsigned t = 0; t < T; t++)
    th.emplace_back([&, t] {
      for (;;) {
        uint64_t b = next.fetch_add(chunk);
        if (b >= n) break;
        body(b, std::min(n, b + chunk), rs[t]);
      }
    });
  for (auto &x : th) x.join();
  Result r;
  for (auto &x : rs) r.merge(x);
  std::sort(r.first.begin(), r.first.end(), [](const Violation &a, const Violation &b) { return a.index < b.index; });
  return r;
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void print(const Result &r, bool exhaustive = true) {
  printf("{\"states\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"failures\":%" PRIu64 ",\"exhaustive\":%s", r.states,
         r.transitions, r.failures, exhaustive ? "true" : "false");
  printf(",\"violations\":[");
  for (size_t i = 0; i < r.first.size(); i++)
    printf("%s{\"key\":\"%s\",\"text\":\"%s\"}", i ? "," : "", esc(r.first[i].key).c_str(), esc(r.first[i].text).c_str());
  printf("],\"counts\":{");
  bool f = true;
  for (auto &c : r.counts) { printf("%s\"%s\":%" PRIu64, f ? "" : ",", esc(c.first).c_str(), c.second); f = false; }
  printf("},\"worst\":{");
  f = true;
  for (auto &w : r.worst) {
    printf("%s\"%s\":{\"value\":%.6g,\"at\":\"%s\"}", f ? "" : ",", esc(w.first).c_str(),
           std::isfinite(w.second.first) ? w.second.first : 9.99e307, esc(w.second.second).c_str());
    f = false;
  }
  printf("},\"samples\":[");
  for (size_t i = 0; i < r.samples.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(r.samples[i]).c_str());
  printf("]}\n");
}

}  // namespace mc
#endif
