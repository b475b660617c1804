// Histories of write and read operations on two files and three objects of one kind.
// Object 0 and object 1 are constructed from two data sets, object 2 starts empty.
// The model knows which data set every file and object holds.
#ifndef DIAGHIST_HPP
#define DIAGHIST_HPP
#include "diag.hpp"
#include <memory>

namespace diag {

// Kind: Object, make(set) -> Object*, read(file) -> Object*, write(Object&, file), check(Object&, set) -> error text
template <class Kind> struct History {
  typedef typename Kind::Object O;
  std::unique_ptr<O> obj[3];
  int holds[3] = {0, 1, -1};      // data set of each object
  int source[3] = {-1, -1, -1};   // file it was read from
  bool stale[3] = {false, false, false};   // that file has since received another data set
  int file[2] = {-1, -1};         // data set of each file

  static string name(int f) { return scratch(f ? "B" : "A"); }

  bool enabled(int op) const {
    if (op < 6) return holds[op % 3] >= 0 && !stale[op % 3];   // write object op%3 to file op/3
    return file[(op - 6) / 3] >= 0;                            // read file into object
  }
  string apply(int op) {
    steps++;
    if (op < 6) {
      const int o = op % 3, f = op / 3;
      for (int i = 0; i < 3; i++)
        if (source[i] == f && file[f] != holds[o]) stale[i] = true;
      Kind::write(*obj[o], name(f));
      file[f] = holds[o];
      // a write does not disturb the object
      return Kind::check(*obj[o], holds[o]);
    }
    const int o = (op - 6) % 3, f = (op - 6) / 3;
    obj[o].reset(Kind::read(name(f)));
    holds[o] = file[f];
    source[o] = f;
    stale[o] = false;
    return Kind::check(*obj[o], holds[o]);
  }
  static string opName(int op) {
    return op < 6 ? string("write object ") + char('0' + op % 3) + " to " + char('A' + op / 3)
                  : string("read ") + char('A' + (op - 6) / 3) + " into object " + char('0' + (op - 6) % 3);
  }
  // ops as letters a..l; a disabled operation ends the history
  static string run(const string &ops) {
    unlink(name(0).c_str());
    unlink(name(1).c_str());
    History h;
    h.obj[0].reset(Kind::make(0));
    h.obj[1].reset(Kind::make(1));
    string done;
    for (char c : ops) {
      const int op = c - 'a';
      if (!h.enabled(op)) return "";
      done += (done.empty() ? "" : ", ") + opName(op);
      const string e = h.apply(op);
      if (!e.empty()) return "after " + done + ": " + e;
    }
    // what is on disk now
    for (int f = 0; f < 2; f++)
      if (h.file[f] >= 0) {
        steps++;
        std::unique_ptr<O> o(Kind::read(name(f)));
        const string e = Kind::check(*o, h.file[f]);
        if (!e.empty()) return "after " + done + ", file " + char('A' + f) + " read back: " + e;
      }
    return "";
  }
  // all histories of exactly `depth` enabled operations (shorter ones are their prefixes)
  static void all(int depth, const std::function<void(const string &)> &emit) {
    struct M { int holds[3], source[3]; bool stale[3]; int file[2]; };
    std::function<void(M, string)> go = [&](M m, string s) {
      if ((int)s.size() == depth) { emit(s); return; }
      for (int op = 0; op < 12; op++) {
        M n = m;
        if (op < 6) {
          const int o = op % 3, f = op / 3;
          if (n.holds[o] < 0 || n.stale[o]) continue;
          for (int i = 0; i < 3; i++) if (n.source[i] == f && n.file[f] != n.holds[o]) n.stale[i] = true;
          n.file[f] = n.holds[o];
        } else {
          const int o = (op - 6) % 3, f = (op - 6) / 3;
          if (n.file[f] < 0) continue;
          n.holds[o] = n.file[f]; n.source[o] = f; n.stale[o] = false;
        }
        go(n, s + char('a' + op));
      }
    };
    go(M{{0, 1, -1}, {-1, -1, -1}, {false, false, false}, {-1, -1}}, "");
  }
};

// Histories with copies: objects are also made from other objects, which live on or are
// given up. Letters: A..F write, G..L read, M..R copy, S..X move.
template <class Kind> struct Copies {
  typedef typename Kind::Object O;
  struct M {
    int holds[3] = {0, 1, -1}, source[3] = {-1, -1, -1};
    bool stale[3] = {false, false, false};
    int file[2] = {-1, -1};
    static int from(int op) { return (op - 12) % 6 / 2; }
    static int to(int op) { return (from(op) + 1 + op % 2) % 3; }
    bool enabled(int op) const {
      if (op < 6) return holds[op % 3] >= 0 && !stale[op % 3];
      if (op < 12) return file[(op - 6) / 3] >= 0;
      return holds[from(op)] >= 0;
    }
    void apply(int op) {
      if (op < 6) {
        const int o = op % 3, f = op / 3;
        for (int i = 0; i < 3; i++) if (source[i] == f && file[f] != holds[o]) stale[i] = true;
        file[f] = holds[o];
      } else if (op < 12) {
        const int o = (op - 6) % 3, f = (op - 6) / 3;
        holds[o] = file[f]; source[o] = f; stale[o] = false;
      } else {
        const int a = from(op), b = to(op);
        holds[b] = holds[a]; source[b] = source[a]; stale[b] = stale[a];
        if (op >= 18) holds[a] = -1;
      }
    }
  };
  static string name(int f) { return scratch(f ? "B" : "A"); }
  // kinds whose lists can be changed from outside say how
  template <class K> static auto disturb(O &o, int) -> decltype(K::disturb(o), true) { K::disturb(o); return true; }
  template <class K> static bool disturb(O &, long) { return false; }
  static string report(O &o) { printed(); freshOutput(); o.print(); return printed(); }
  static string run(const string &ops) {
    unlink(name(0).c_str());
    unlink(name(1).c_str());
    M m;
    std::unique_ptr<O> obj[3];
    obj[0].reset(Kind::make(0));
    obj[1].reset(Kind::make(1));
    string done;
    for (char c : ops) {
      const int op = c - 'A';
      if (!m.enabled(op)) return "";
      steps++;
      string e;
      if (op < 6) {
        Kind::write(*obj[op % 3], name(op / 3));
        done += string("write object ") + char('0' + op % 3) + " to " + char('A' + op / 3) + ", ";
      } else if (op < 12) {
        obj[(op - 6) % 3].reset(Kind::read(name((op - 6) / 3)));
        done += string("read ") + char('A' + (op - 6) / 3) + " into object " + char('0' + (op - 6) % 3) + ", ";
      } else {
        const int a = M::from(op), b = M::to(op);
        const string before = report(*obj[a]);
        if (op < 18) obj[b].reset(new O(*obj[a]));
        else { obj[b].reset(new O(std::move(*obj[a]))); obj[a].reset(); }
        done += string(op < 18 ? "copy object " : "move object ") + char('0' + a) + " to " + char('0' + b) + ", ";
        if (report(*obj[b]) != before) e = string("object ") + char('0' + b) + " prints another report than its original";
      }
      m.apply(op);
      for (int i = 0; i < 3 && e.empty(); i++)
        if (m.holds[i] >= 0) {
          e = Kind::check(*obj[i], m.holds[i]);
          if (!e.empty()) e = string("object ") + char('0' + i) + ": " + e;
        }
      if (!e.empty()) return "after " + done + e;
    }
    for (int f = 0; f < 2; f++)
      if (m.file[f] >= 0) {
        steps++;
        std::unique_ptr<O> o(Kind::read(name(f)));
        const string e = Kind::check(*o, m.file[f]);
        if (!e.empty()) return "after " + done + "file " + char('A' + f) + " read back: " + e;
      }
    // changes of one object do not reach the others
    for (int i = 0; i < 3; i++)
      if (m.holds[i] >= 0 && disturb<Kind>(*obj[i], 0))
        for (int j = i + 1; j < 3; j++) {
          steps++;
          const string e = m.holds[j] >= 0 ? Kind::check(*obj[j], m.holds[j]) : "";
          if (!e.empty()) return "after " + done + "change of object " + char('0' + i) + ", object " + char('0' + j) + ": " + e;
        }
    return "";
  }
  // all histories of exactly `depth` enabled operations with a copy or move among them
  static void all(int depth, const std::function<void(const string &)> &emit) {
    std::function<void(M, string, bool)> go = [&](M m, string s, bool some) {
      if ((int)s.size() == depth) { if (some) emit(s); return; }
      for (int op = 0; op < 24; op++) {
        if (!m.enabled(op)) continue;
        M n = m;
        n.apply(op);
        go(n, s + char('A' + op), some || op >= 12);
      }
    };
    go(M(), "", false);
  }
};

void cleanup() {
  for (const char *n : {"A", "B", "C", "D"}) unlink(scratch(n).c_str());
}

// bit patterns with special meaning, as values
template <class T> vector<T> specialValues() {
  vector<T> v;
  typedef typename mc::U<T>::type B;
  const B one = ub(T(1)), inf = ub(std::numeric_limits<T>::infinity()), top = B(1) << (sizeof(T) * 8 - 1);
  for (B b : {B(0), top, one, B(one | top), B(1), B(top | 1), inf, B(inf | top), B(inf | 1), B(inf | (one >> 1)), B(~B(0)), B(inf - 1), ub(std::numeric_limits<T>::min()), ub(T(0.1)), ub(T(-3.75)), B(0x10)})
    v.push_back(mc::fromBits<T>(b));
  return v;
}
// a longer deterministic list that starts at a chosen special value
template <class T> vector<T> longList(uint64_t n, unsigned shift) {
  const vector<T> s = specialValues<T>();
  vector<T> v;
  v.reserve(n);
  for (uint64_t i = 0; i < n; i++)
    v.push_back(i < s.size() ? s[(i + shift) % s.size()] : (T)(i * 0.37 - shift * 11.5));
  return v;
}
// exact equality of bit patterns, NaN payloads included
template <class T> string diffLists(const char *what, const vector<T> &got, const vector<T> &want) {
  if (got.size() != want.size()) return string(what) + ": " + str(got.size()) + " values instead of " + str(want.size());
  for (size_t i = 0; i < got.size(); i++)
    if (ub(got[i]) != ub(want[i])) return string(what) + "[" + str(i) + "] is " + mc::hexf(got[i]) + " instead of " + mc::hexf(want[i]);
  return "";
}

}  // namespace diag
#endif
