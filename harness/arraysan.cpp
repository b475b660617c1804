// Array functions between exactly sized buffers, for instrumented builds.
//   key: <f|d> <function> <length> <offset of the first element>
#include "fntable.hpp"
#include "diag.hpp"
namespace diag {
template <class T> string call(int i, uint32_t n, int shift) {
  const Entry<T> &e = table<T>()[i];
  // the buffers end where the arrays end, and start at any multiple of the element size
  T *b[3];
  for (auto &p : b) p = new T[n + shift];
  for (uint32_t k = 0; k < n + shift; k++) {
    b[0][k] = (T)(0.01 + 0.97 * ((k * 37) % 101) / 101);   // inside every domain
    b[1][k] = (T)(k % 2 ? 0.3 + k : -0.3 - k);
    b[2][k] = 0;
  }
  steps++;
  e.array(n, b[0] + shift, b[1] + shift, b[2] + shift);
  for (auto p : b) delete[] p;
  return "";
}
string judge(const Key &k) {
  if (k[0] == "f") return call<float>(num(k[1]), num(k[2]), num(k[3]));
  return call<double>(num(k[1]), num(k[2]), num(k[3]));
}
void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  const int top = thorough ? 200 : 40;
  for (const char *p : {"f", "d"})
    for (size_t i = 0; i < (*p == 'f' ? table<float>().size() : table<double>().size()); i++)
      for (int n = 0; n <= top; n++)
        for (int s = 0; s < 4; s++) emit({p, str(i), str(n), str(s)});
}
void cleanup() {}
}  // namespace diag
