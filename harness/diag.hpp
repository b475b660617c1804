// Frame of the explorers of the diagnostic classes: every state is named by a key;
// enumerate() lists the keys, judge() executes one and says what is wrong, if anything.
// The work runs in a child process so that a crash or a hang is attributed to its key.
#ifndef DIAG_HPP
#define DIAG_HPP
#include "mc.hpp"
#include "vdtMath.h"
#include "vdtdiag_helper.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace diag {
using mc::same;
using mc::ub;
using std::string;
using std::vector;
typedef vector<string> Key;

bool small = false;   // reduced space of the instrumented builds
uint64_t steps = 0;   // operations executed on the code under test
std::map<string, uint64_t> tally;   // further counts of a harness
uint64_t inner = 0;   // states inside a block named by one key
std::ostringstream out;   // what the code under test printed

string join(const Key &k) {
  string s;
  for (auto &t : k) s += (s.empty() ? "" : " ") + t;
  return s;
}
template <class V> string str(V v) { std::ostringstream o; o << v; return o.str(); }
uint64_t num(const string &s) { return strtoull(s.c_str(), 0, 0); }
uint64_t hex(const string &s) { return strtoull(s.c_str(), 0, 16); }

// With MC_DIGEST every state leaves a hash of its verdict and of everything it showed.
#ifdef MC_DIGEST
uint64_t digest = 0;
void note(const string &s) { for (unsigned char c : s) digest = (digest ^ c) * 0x100000001b3ull; digest = (digest ^ 0x100) * 0x100000001b3ull; }
#else
void note(const string &) {}
#endif

// text printed since the last call; stream formatting back to its initial state
string printed() {
  string s = out.str();
  note(s);
  out.str("");
  return s;
}
void freshOutput() {
  static const std::ios initial(nullptr);
  out.str("");
  std::cout.copyfmt(initial);
  std::cout.clear();
}

string scratch(const string &name) {
#ifdef MC_DIGEST
  return "f-" + name;   // in a directory of its own, so that messages do not differ
#endif
  static const string base = string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : ".");
  return base + "/f" + str(getpid()) + "-" + name;
}

string judge(const Key &k);                                                // harness
void enumerate(bool thorough, const std::function<void(const Key &)> &emit);   // harness
void cleanup();                                                            // harness

#ifdef MC_SAN
// Build with memory and arithmetic instrumentation, which aborts on an error. What judge()
// says about values is not the subject; memory or files left over by the second of two
// equal executions are.
extern "C" size_t __sanitizer_get_current_allocated_bytes();
int openFiles() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
string run(const Key &k) {
  judge(k);
  printed();
  const int f = openFiles();
  const size_t m = __sanitizer_get_current_allocated_bytes();
  judge(k);
  printed();
  const size_t n = __sanitizer_get_current_allocated_bytes();
  const int g = openFiles();
  if (g > f) return str(g - f) + " files stay open";
  if (n > m) return str(n - m) + " bytes of memory are not released";
  return "";
}
#elif defined MC_DIGEST
FILE *digests = nullptr;
string run(const Key &k) {
  digest = 0xcbf29ce484222325ull;
  const string e = judge(k);
  note(e);
  printed();
  if (digests) fwrite(&digest, sizeof digest, 1, digests);
  else printf("%016llx %s\n", (unsigned long long)digest, e.c_str());
  return "";
}
#else
string run(const Key &k) { return judge(k); }
#endif

struct Shared { char key[4000]; char json[1 << 20]; };

int main(int argc, char **argv) {
  std::cout.rdbuf(out.rdbuf());
  const string mode = argv[1];
#ifdef MC_DIGEST
  if (chdir(getenv("MC_SCRATCH"))) { perror("chdir"); return 2; }
  if (mode == "run") digests = fopen("digests", "wb");
#endif
  Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); return 2; }
  if (p == 0) {
    if (mode == "replay") {
      Key k(argv + 2, argv + argc);
      alarm(600);
      const string e = run(k);
      cleanup();
      printf("%s: %s\n", join(k).c_str(), e.empty() ? "holds" : e.c_str());
      fflush(stdout);
      _exit(e.empty() ? 0 : 1);
    }
    const bool thorough = string(argv[2]) == "thorough";
    small = string(argv[2]) == "small";
    if (mode == "key") {   // the n-th state of a part
      uint64_t i = 0;
      const uint64_t want = num(argv[5]) * num(argv[4]) + num(argv[3]);
      enumerate(thorough, [&](const Key &k) { if (i++ == want) printf("%s\n", join(k).c_str()); });
      cleanup();
      fflush(stdout);
      _exit(0);
    }
    const uint64_t part = num(argv[3]), parts = num(argv[4]);
    mc::Result r;
    uint64_t i = 0, sampled = 0;
    enumerate(thorough, [&](const Key &k) {
      const uint64_t idx = i++;
      if (idx % parts != part) return;
      snprintf(sh->key, sizeof sh->key, "%s", join(k).c_str());
      if (r.states % 64 == 0) alarm(thorough ? 3000 : 300);
      const string e = run(k);
      r.states++;
      r.counts[k[0]]++;
      if (!e.empty()) r.fail(idx, join(k), e);
      // samples spread over the space
      if (r.states == (1ull << sampled) && sampled < 24) { sampled++; if (sampled % 3 == 0) r.samples.push_back(join(k)); }
    });
    cleanup();
#ifdef MC_DIGEST
    if (fclose(digests)) { perror("fclose"); _exit(2); }
#endif
    r.transitions = steps;
    r.states += inner;
    for (auto &t : tally) r.counts[t.first] += t.second;
    std::sort(r.first.begin(), r.first.end(), [](const mc::Violation &a, const mc::Violation &b) { return a.index < b.index; });
    mc::print(r);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) {
    const int s = WTERMSIG(st);
    if (s == SIGKILL || s == SIGTERM || s == SIGINT) return 2;
    const string what = s == SIGALRM ? "does not finish" : "crashes with signal " + str(s);
    if (mode == "replay") { printf("%s\n", what.c_str()); return 1; }
    mc::Result r;
    r.states = 1;
    r.fail(0, sh->key, string(sh->key) + ": " + what);
    mc::print(r, false);
    return 0;
  }
  return WEXITSTATUS(st);
}
}  // namespace diag

#ifndef DIAG_NO_MAIN
int main(int argc, char **argv) { return diag::main(argc, argv); }
#endif
#endif
