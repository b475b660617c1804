// C23: hexadecimal text and back.
#include "diag.hpp"
#include "vdtdiag_filePersistence.h"

namespace diag {
void cleanup() {}

// a stream buffer over a fixed array
struct Buf : std::streambuf {
  char a[1 << 12];
  void writing() { setp(a, a + sizeof a); }
  size_t size() { return pptr() - pbase(); }
  void reading() { setg(a, a, pptr()); }
};
struct Streams {
  Buf b;
  std::ostream o;
  std::istream i;
  Streams() : o(&b), i(&b) {}
};

template <class T> string one(Streams &s, uint64_t bits) {
  const T v = mc::fromBits<T>(bits);
  s.b.writing();
  s.o << fpToHex<T>(v);
  s.b.reading();
  s.i.clear();
  fpFromHex<T> f;
  s.i >> f;
  if (!s.i) return "not readable: \"" + string(s.b.a, s.b.size()) + "\"";
  const T r = f.getValue();
  if (ub(r) != bits) return "written as \"" + string(s.b.a, s.b.size()) + "\", read back as " + mc::hexf(r);
  return "";
}

// alphabet of one position of a sequence
enum { NSYM = 13 };
const uint32_t FB[] = {0u, 0x80000000u, 0x3f800000u, 0x7fc00001u, 0xff800000u};
const uint64_t DB[] = {0ull, 0x8000000000000000ull, 0x3ff0000000000000ull, 0xfff0000000000001ull, 0x0123456789abcdefull};
const int IB[] = {10, -16};

void put(std::ostream &o, int s) {
  if (s < 5) o << fpToHex<float>(mc::fromBits<float>(FB[s]));
  else if (s < 10) o << fpToHex<double>(mc::fromBits<double>(DB[s - 5]));
  else if (s < 12) o << (s == 10 ? "0" : "") << IB[s - 10] << ' ';   // a leading zero is still decimal
  else o << "abc ";
}
string get(std::istream &i, int s) {
  if (s < 5) {
    fpFromHex<float> f;
    if (!(i >> f)) return "single precision value not readable";
    const float v = f.getValue();
    if (ub(v) != FB[s]) return "single precision value read as " + mc::hexf(v) + " instead of bits " + str(FB[s]);
  } else if (s < 10) {
    fpFromHex<double> f;
    if (!(i >> f)) return "double precision value not readable";
    const double v = f.getValue();
    if (ub(v) != DB[s - 5]) return "double precision value read as " + mc::hexf(v);
  } else if (s < 12) {
    int v = 12345;
    if (!(i >> v) || v != IB[s - 10]) return "decimal number " + str(IB[s - 10]) + " read as " + str(v);
  } else {
    string t;
    if (!(i >> t) || t != "abc") return "text read as \"" + t + "\"";
  }
  return "";
}

string judge(const Key &k) {
  Streams s;
  if (k[0] == "float") { steps++; return one<float>(s, hex(k[1])); }
  if (k[0] == "double") { steps++; return one<double>(s, hex(k[1])); }
  if (k[0] == "floats") {   // a block of 2^20 bit patterns
    const uint64_t b = hex(k[1]);
    for (uint64_t u = b; u < b + (1 << 20); u++) {
      const string e = one<float>(s, u);
      steps++;
      if (!e.empty()) return mc::hexf(mc::fromBits<float>(u)) + " " + e;
    }
    inner += (1 << 20) - 1;
    return "";
  }
  // sequence
  const string &q = k[1];
  std::stringstream st;
  for (char c : q) { steps++; put(st, c - 'a'); }
  const string text = st.str();
  for (char c : q) {
    steps++;
    const string e = get(st, c - 'a');
    if (!e.empty()) return "\"" + text + "\": " + e;
  }
  return "";
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  char b[32];
  // double precision: every pattern with at most three bits set or cleared, every run of ones
  auto d = [&](uint64_t u) { snprintf(b, sizeof b, "%016" PRIx64, u); emit({"double", b}); };
  std::set<uint64_t> seen;
  auto both = [&](uint64_t u) { if (seen.insert(u).second) d(u); if (seen.insert(~u).second) d(~u); };
  both(0);
  for (int i = 0; i < 64; i++) {
    both(1ull << i);
    for (int j = 0; j < i; j++) {
      both(1ull << i | 1ull << j);
      both(((i == 63 ? 0 : 1ull << (i + 1)) - 1) & ~((1ull << j) - 1));
      if (!small && i % (thorough ? 1 : 2) == 0) for (int l = 0; l < j; l++) both(1ull << i | 1ull << j | 1ull << l);
    }
  }
  for (uint64_t e = 0; e < 2048; e++)
    for (uint64_t m : {0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x123456789abcdull, 0xabcdefull})
      for (uint64_t sg : {0ull, 1ull}) d(sg << 63 | e << 52 | m);
  for (unsigned h = 0; h < (small ? 256u : 65536u); h++) { d((uint64_t)h << 48 | 0x5a5a5a5a5a5aull); d((uint64_t)h); d((uint64_t)h << 16); d((uint64_t)h << 32); }
  // sequences
  const int depth = thorough ? 6 : small ? 3 : 5;
  std::function<void(string)> go = [&](string s) {
    if ((int)s.size() == depth) { emit({"sequence", s}); return; }
    for (int i = 0; i < NSYM; i++) go(s + char('a' + i));
  };
  go("");
  // single precision: everything
  for (uint64_t u = 0; u < (1ull << 32) && !small; u += 1 << 20) { snprintf(b, sizeof b, "%08" PRIx64, u); emit({"floats", b}); }
}
}  // namespace diag
