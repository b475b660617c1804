// Preloaded allocation functions that fill new and released memory with the byte MC_FILL,
// and a clock that advances by the same amount with every reading.
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <time.h>

extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept {
  static long long n = 0;
  n += 100;
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}

static int fill() {
  static const char *e = getenv("MC_FILL");
  return e ? atoi(e) : 0;
}
static void *get(size_t n) {
  void *p = malloc(n ? n : 1);
  if (p) memset(p, fill(), n);
  return p;
}
static void drop(void *p) {
  if (!p) return;
  memset(p, fill(), malloc_usable_size(p));
  __asm__ volatile("" : : "r"(p) : "memory");
  free(p);
}
static void *need(size_t n) {
  void *p = get(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return need(n); }
void *operator new[](size_t n) { return need(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
