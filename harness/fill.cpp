// Two builds of the functions whose local variables start with different contents.
//   -DPART: the functions, as a shared object
//   fill run <tier> <first> <second>                        exploration (JSON)
//   fill replay <first> <second> <f|d> <fn> <hex> <hex>     one evaluation
//   fill replay <first> <second> <f|d> <fn> array <n>       one call of the array function
#ifdef PART
#include "fntable.hpp"
template <class T> void work(int i, int array, uint32_t n, const void *a, const void *b, void *o) {
  const Entry<T> &e = table<T>()[i];
  const T *x = (const T *)a, *y = (const T *)b;
  T *r = (T *)o;
  if (array) return e.array(n, x, y, r);
  for (uint32_t k = 0; k < n; k++) r[k] = e.eval(x[k], y[k]);
}
extern "C" __attribute__((visibility("default"))) const char *fill_name(int f, int i) {
  if (f) return i < (int)table<float>().size() ? table<float>()[i].name : nullptr;
  return i < (int)table<double>().size() ? table<double>()[i].name : nullptr;
}
extern "C" __attribute__((visibility("default"))) void fill_eval(int f, int i, int array, uint32_t n, const void *a, const void *b, void *o) {
  if (f) work<float>(i, array, n, a, b, o); else work<double>(i, array, n, a, b, o);
}
#else
#include "lattice.hpp"
#include <dlfcn.h>
typedef const char *(*Name)(int, int);
typedef void (*Eval)(int, int, int, uint32_t, const void *, const void *, void *);
static Eval EV[2];
static Name name;
static const uint32_t N = 1 << 12;

template <class T> bool differ(T a, T b) { return ub(a) != ub(b) && (a == a || b == b); }
template <class T> std::string say(int i, T x, T y, T p, T q) {
  return std::string(name(sizeof(T) == 4, i)) + "(" + hexf(x) + ", " + hexf(y) + ") gives " + hexf(p) + " or " + hexf(q) + ", depending on what its local variables held";
}
template <class T> Result all(bool thorough) {
  const int f = sizeof(T) == 4;
  std::vector<T> a = args<T>(), b;
  if (thorough && f) for (uint64_t u = 0; u < 1ull << 32; u += 64) a.push_back(fromBits<T>(u));
  // second arguments: the same list, shifted
  b = a;
  std::rotate(b.begin(), b.begin() + a.size() / 3, b.end());
  Result r;
  for (int i = 0; name(f, i); i++) {
    r.merge(explore(a.size(), N, [&](uint64_t s, uint64_t e, Result &q) {
      std::vector<T> o[2];
      for (int k = 0; k < 2; k++) { o[k].assign(e - s, 0); EV[k](f, i, 0, e - s, &a[s], &b[s], o[k].data()); }
      for (uint64_t j = 0; j < e - s; j++) {
        q.states++;
        q.transitions += 2;
        if (!differ(o[0][j], o[1][j])) continue;
        char key[128];
        snprintf(key, sizeof key, "%s %s %llx %llx", f ? "f" : "d", name(f, i), (unsigned long long)ub(a[s + j]), (unsigned long long)ub(b[s + j]));
        q.fail(s + j, key, say<T>(i, a[s + j], b[s + j], o[0][j], o[1][j]));
      }
    }));
  }
  return r;
}
// array functions, every length: moderate arguments, output filled differently beforehand
template <class T> std::string arrays(int i, uint32_t n) {
  std::vector<T> x(n + 1), y(n + 1), o[2];
  for (uint32_t k = 0; k <= n; k++) { x[k] = (T)(0.01 + 0.97 * ((k * 37) % 101) / 101); y[k] = (T)(0.3 + k); }
  for (int k = 0; k < 2; k++) { o[k].assign(n + 1, k ? (T)-7.5 : (T)3.25); EV[k](sizeof(T) == 4, i, 1, n, x.data(), y.data(), o[k].data()); }
  for (uint32_t k = 0; k < n; k++)
    if (differ(o[0][k], o[1][k])) return std::string("array of ") + std::to_string(n) + ", element " + std::to_string(k) + ": " + say<T>(i, x[k], y[k], o[0][k], o[1][k]);
  return "";
}
template <class T> Result lengths(uint32_t top) {
  const int f = sizeof(T) == 4;
  Result r;
  for (int i = 0; name(f, i); i++)
    for (uint32_t n = 0; n <= top; n++) {
      const std::string e = arrays<T>(i, n);
      r.states++;
      r.transitions += 2;
      if (!e.empty()) r.fail(n, std::string(f ? "f " : "d ") + name(f, i) + " array " + std::to_string(n), e);
    }
  return r;
}
template <class T> int single(char **v) {
  const int f = sizeof(T) == 4;
  int i = 0;
  while (name(f, i) && strcmp(name(f, i), v[5])) i++;
  if (!name(f, i)) return 2;
  if (!strcmp(v[6], "array")) {
    const std::string e = arrays<T>(i, atoi(v[7]));
    puts(e.empty() ? "holds" : e.c_str());
    return !e.empty();
  }
  const T x = fromBits<T>(strtoull(v[6], 0, 16)), y = fromBits<T>(strtoull(v[7], 0, 16));
  T o[2];
  for (int k = 0; k < 2; k++) EV[k](f, i, 0, 1, &x, &y, &o[k]);
  puts(say<T>(i, x, y, o[0], o[1]).c_str());
  return differ(o[0], o[1]);
}
int main(int c, char **v) {
  if (c < 5) return 2;
  const bool run = !strcmp(v[1], "run");
  for (int k = 0; k < 2; k++) {
    void *h = dlopen(v[k + (run ? 3 : 2)], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    EV[k] = (Eval)dlsym(h, "fill_eval");
    name = (Name)dlsym(h, "fill_name");
  }
  if (!run) return v[4][0] == 'f' ? single<float>(v) : single<double>(v);
  const bool th = !strcmp(v[2], "thorough");
  Result r = all<float>(th);
  r.merge(all<double>(th));
  r.merge(lengths<float>(70));
  r.merge(lengths<double>(70));
  print(r);
}
#endif
