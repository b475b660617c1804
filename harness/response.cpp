// C25: response objects.
#include "diaghist.hpp"
#include "vdtdiag_fcnResponse.h"

namespace diag {

// functions that tell every argument and argument order apart, on bit patterns
template <class T> T f1(T x) { return mc::fromBits<T>(ub(x) * 5 + 3); }
template <class T> T f2(T x, T y) { return mc::fromBits<T>(ub(x) * 7 + ub(y) * 13 + 1); }
template <class T> struct Fn {
  static uint64_t calls, lastN;
  static void v1(uint32_t n, T *x, T *o) { calls++; lastN = n; for (uint32_t i = 0; i < n; i++) o[i] = f1(x[i]); }
  static void v2(uint32_t n, T *x, T *y, T *o) { calls++; lastN = n; for (uint32_t i = 0; i < n; i++) o[i] = f2(x[i], y[i]); }
};
template <class T> uint64_t Fn<T>::calls = 0;
template <class T> uint64_t Fn<T>::lastN = 0;

template <class T> fcnResponse1D<T> *make1(const vector<T> &x, bool array) {
  steps++;
  return array ? new fcnResponse1D<T>("Name_f", x, std::function<void(const uint32_t, T *, T *)>(Fn<T>::v1))
               : new fcnResponse1D<T>("Name_f", x, std::function<T(T)>(f1<T>));
}
template <class T> fcnResponse2D<T> *make2(const vector<T> &x, const vector<T> &y, bool array) {
  steps++;
  return array ? new fcnResponse2D<T>("Name_f", x, y, std::function<void(const uint32_t, T *, T *, T *)>(Fn<T>::v2))
               : new fcnResponse2D<T>("Name_f", x, y, std::function<T(T, T)>(f2<T>));
}
template <class T> string check1(fcnResponse1D<T> &r, const vector<T> &x) {
  vector<T> o;
  for (T v : x) o.push_back(f1(v));
  string e = diffLists("input", r.getInput(), x);
  if (e.empty()) e = diffLists("output", r.getOutput(), o);
  for (size_t i = 0; e.empty() && i < x.size() && i < 50; i++)
    if (ub((T)r.inputVal(i)) != ub(x[i]) || ub((T)r.outputVal(i)) != ub(o[i])) e = "element access " + str(i);
  return e;
}
template <class T> string check2(fcnResponse2D<T> &r, const vector<T> &x, const vector<T> &y) {
  vector<T> o;
  for (size_t i = 0; i < x.size(); i++) o.push_back(f2(x[i], y[i]));
  string e = diffLists("first input", r.getInput1(), x);
  if (e.empty()) e = diffLists("second input", r.getInput2(), y);
  if (e.empty()) e = diffLists("output", r.getOutput(), o);
  for (size_t i = 0; e.empty() && i < x.size() && i < 50; i++)
    if (ub((T)r.input1Val(i)) != ub(x[i]) || ub((T)r.input2Val(i)) != ub(y[i]) || ub((T)r.outputVal(i)) != ub(o[i])) e = "element access " + str(i);
  return e;
}

template <class T, bool A> struct K1 {
  typedef fcnResponse1D<T> Object;
  static vector<T> in(int set) { return set ? longList<T>(9, 5) : longList<T>(5, 0); }
  static Object *make(int set) { return make1<T>(in(set), A); }
  static Object *read(const string &f) { return new Object(f); }
  static void write(Object &o, const string &f) { o.writeFile(f); }
  static string check(Object &o, int set) { return check1(o, in(set)); }
  static void disturb(Object &o) {
    o.getInput()[0] = o.getOutput()[0] = (T)77;
    o.pushInputVal((T)3);
    o.pushOutputVal((T)4);
  }
};
template <class T, bool A> struct K2 {
  typedef fcnResponse2D<T> Object;
  static vector<T> in(int set, int y) { return set ? longList<T>(9, 5 + y) : longList<T>(5, 7 * y); }
  static Object *make(int set) { return make2<T>(in(set, 0), in(set, 1), A); }
  static Object *read(const string &f) { return new Object(f); }
  static void write(Object &o, const string &f) { o.writeFile(f); }
  static string check(Object &o, int set) { return check2(o, in(set, 0), in(set, 1)); }
  static void disturb(Object &o) { o.getInput1()[0] = o.getInput2()[0] = o.getOutput()[0] = (T)77; }
};

template <class T> vector<T> parse(const string &s) {
  if (s[0] == 'n') {   // n<size>.<shift>
    const size_t d = s.find('.');
    return longList<T>(num(s.substr(1, d - 1)), num(s.substr(d + 1)));
  }
  const vector<T> sp = specialValues<T>();
  vector<T> v;
  for (char c : s) if (c != '-') v.push_back(sp[c - 'a']);
  return v;
}

template <class R, class C> string cycle(R *r, const C &check) {
  std::unique_ptr<R> a(r);
  string e = check(*a);
  if (!e.empty()) return e;
  a->writeFile(scratch("A"));
  e = check(*a);
  if (!e.empty()) return "after writing: " + e;
  R b(scratch("A"));
  e = check(b);
  if (!e.empty()) return "read back: " + e;
  b.writeFile(scratch("B"));
  R c(scratch("B"));
  e = check(c);
  if (!e.empty()) return "copy read back: " + e;
  c.writeFile(scratch("C"));
  R d(scratch("C"));
  e = check(d);
  if (!e.empty()) return "copy of the copy read back: " + e;
  steps += 6;
  return "";
}

template <class T> string state(const Key &k) {
  const bool array = k[2] == "array";
  if (k[0] == "copies1") return array ? Copies<K1<T, true>>::run(k[3]) : Copies<K1<T, false>>::run(k[3]);
  if (k[0] == "copies2") return array ? Copies<K2<T, true>>::run(k[3]) : Copies<K2<T, false>>::run(k[3]);
  if (k[0] == "one") {
    const vector<T> x = parse<T>(k[3]);
    Fn<T>::calls = 0;
    fcnResponse1D<T> *r = make1<T>(x, array);
    if (array && (Fn<T>::calls != 1 || Fn<T>::lastN != x.size())) return "array function called " + str(Fn<T>::calls) + " times, last with " + str(Fn<T>::lastN);
    return cycle(r, [&](fcnResponse1D<T> &o) { return check1(o, x); });
  }
  if (k[0] == "two") {
    const vector<T> x = parse<T>(k[3]), y = parse<T>(k[4]);
    Fn<T>::calls = 0;
    fcnResponse2D<T> *r = make2<T>(x, y, array);
    if (array && (Fn<T>::calls != 1 || Fn<T>::lastN != x.size())) return "array function called " + str(Fn<T>::calls) + " times, last with " + str(Fn<T>::lastN);
    return cycle(r, [&](fcnResponse2D<T> &o) { return check2(o, x, y); });
  }
  if (k[0] == "history1") return array ? History<K1<T, true>>::run(k[3]) : History<K1<T, false>>::run(k[3]);
  return array ? History<K2<T, true>>::run(k[3]) : History<K2<T, false>>::run(k[3]);
}

string judge(const Key &k) {
  freshOutput();
  return k[1] == "float" ? state<float>(k) : state<double>(k);
}

void words(int alphabet, int n, const std::function<void(const string &)> &emit, string s = "-") {
  if ((int)s.size() == n + 1) { emit(s); return; }
  for (int i = 0; i < alphabet; i++) words(alphabet, n, emit, s + char('a' + i));
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  for (string p : {"float", "double"})
    for (string a : {"scalar", "array"}) {
#ifdef MC_COPIES
      for (const char *h : {"copies1", "copies2"})
        Copies<K1<float, true>>::all(thorough && a == "scalar" ? 5 : 4, [&](const string &o) { emit({h, p, a, o}); });
      continue;
#endif
      for (int n = 0; n <= 2; n++) words(16, n, [&](const string &w) { emit({"one", p, a, w}); });
      words(thorough ? 16 : small ? 2 : 9, 3, [&](const string &w) { emit({"one", p, a, w}); });
      words(thorough ? 7 : small ? 2 : 4, 4, [&](const string &w) { emit({"one", p, a, w}); });
      for (int n = 0; n <= (thorough ? 3 : 2); n++)
        words(small ? 3 : n == 1 ? 16 : 7, n, [&](const string &v) { words(small ? 3 : n == 1 ? 16 : 7, n, [&](const string &w) { emit({"two", p, a, v, w}); }); });
      for (uint64_t n = 0; n <= 64; n++)
        for (int s = 0; s < 4; s++) {
          emit({"one", p, a, "n" + str(n) + "." + str(s)});
          emit({"two", p, a, "n" + str(n) + "." + str(s), "n" + str(n) + "." + str(s + 3)});
        }
      for (uint64_t n : {127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131073}) {
        emit({"one", p, a, "n" + str(n) + ".1"});
        emit({"two", p, a, "n" + str(n) + ".1", "n" + str(n) + ".2"});
      }
      for (const char *h : {"history1", "history2"})
        History<K1<float, true>>::all(thorough ? 6 : small ? 3 : a == "array" ? 4 : 5, [&](const string &o) { emit({h, p, a, o}); });
    }
}
}  // namespace diag
