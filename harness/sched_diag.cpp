// Diagnostic objects of one thread, compiled with memory access instrumentation.
// Objects and files belong to the calling thread.
#include "vdtMath.h"
#include "vdtdiag_helper.h"
#include "vdtdiag_fcnComparison.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_filePersistence.h"
#include "vdtdiag_random.h"
#include "vdtdiag_simpleCmd.h"
#include "sched_ops.hpp"
#include <cstring>
#include <sstream>
#include <unistd.h>

namespace {
enum { N = 3 };
template <class T> std::vector<T> list(const void *p) { return std::vector<T>((const T *)p, (const T *)p + N); }
template <class T> void put(void *o, const std::vector<T> &v) { for (size_t i = 0; i < v.size() && i < 5; i++) ((T *)o)[i] = v[i]; }
std::string file(const void *p) {
  std::ostringstream o;
  o << "t" << getpid() << "-" << p;
  return o.str();
}
// text as a number that a T holds exactly
template <class T> T digest(const std::string &s) {
  uint32_t h = 7;
  for (unsigned char c : s) h = h * 31 + c;
  return T(h >> 9);
}
template <class T> T half(T x) { return x * T(0.5); }
template <class T> T mix(T x, T y) { return x - y * T(3); }
template <class T> void halves(uint32_t n, T *x, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = half(x[i]); }
template <class T> void mixes(uint32_t n, T *x, T *y, T *o) { for (uint32_t i = 0; i < n; i++) o[i] = mix(x[i], y[i]); }

#define OP(n) template <class T> void n(const void *i, const void *j, void *o)
OP(hexText) {
  std::stringstream s;
  for (T x : list<T>(i)) s << fpToHex<T>(x);
  s << "7 ";
  fpFromHex<T> v;
  for (int k = 0; k < N; k++) { s >> v; ((T *)o)[k] = v.getValue(); }
  int q = 0;
  s >> q;
  ((T *)o)[N] = T(q);
}
OP(bitText) {
  for (int k = 0; k < N; k++) ((T *)o)[k] = digest<T>(vdth::getbsasstr(((const T *)i)[k])) + T(vdth::diffbit(((const T *)i)[k], ((const T *)j)[k]));
}
OP(pool) {
  const T a = ((const T *)i)[0] == ((const T *)i)[0] ? std::fabs(((const T *)i)[0]) : T(1);
  put(o, randomPool1D<T>(-a, a, N, a > 1 ? 1 : 5).getNumbers());
}
OP(poolFile) {
  const std::string f = file(o);
  randomPool2D<T>(T(0), T(1), T(2), T(3), 2, ((const T *)i)[0] > 1 ? 3 : 4).writeFile(f);
  randomPool2D<T> p(f);
  put(o, p.getNumbersX());
  put((T *)o + 2, p.getNumbersY());
  unlink(f.c_str());
}
OP(response) {
  fcnResponse1D<T> r("a", list<T>(i), std::function<T(T)>(half<T>));
  put(o, r.getOutput());
}
OP(responseArray) {
  fcnResponse2D<T> r("a", list<T>(i), list<T>(j), std::function<void(uint32_t, T *, T *, T *)>(mixes<T>));
  put(o, r.getOutput());
}
OP(responseFile) {
  const std::string f = file(o);
  fcnResponse1D<T>("a", list<T>(i), std::function<void(uint32_t, T *, T *)>(halves<T>)).writeFile(f);
  fcnResponse1D<T> r(f);
  put(o, r.getOutput());
  unlink(f.c_str());
}
OP(comparison) {
  const std::string f = file(o);
  fcnComparison1D<T>("a", list<T>(i), list<T>(i), list<T>(j)).writeFile(f);
  std::ifstream s(f);
  std::string l, all;
  for (int k = 0; getline(s, l); k++) if (k > 3) all += l + "\n";   // behind the names
  fcnComparison1D<T> c(f);
  ((T *)o)[0] = digest<T>(all);
  ((T *)o)[1] = c.hasDifference();
  unlink(f.c_str());
}
OP(options) {
  const std::string a = "-n=" + std::string(((const T *)i)[0] > 1 ? "first" : "second"), b = "--size=12";
  char *v[] = {(char *)"p", (char *)a.c_str(), (char *)b.c_str()};
  CmdOptions c;
  c.addOption("-n", "--nick", "x");
  c.addOption("-s", "--size", "y");
  const bool ok = c.parseCmd(3, v);
  ((T *)o)[0] = digest<T>(c.getArgument("-n")) + ok;
  ((T *)o)[1] = digest<T>(c.getArgument("-s"));
}
}  // namespace
#define E(n) {#n " d", n<double>, 5, true}, {#n " f", n<float>, 5, false},
const SchedOp SCHED_OPS[] = {E(hexText) E(bitText) E(pool) E(poolFile) E(response) E(responseArray) E(responseFile) E(comparison) E(options)};
const unsigned SCHED_NOPS = sizeof SCHED_OPS / sizeof *SCHED_OPS;
