// The code under test, compiled with memory access instrumentation.
#include "vdtMath.h"
#include "sched_ops.hpp"
#define FASTS(M) M(asin) M(acos) M(atan) M(cos) M(exp) M(log) M(sin) M(tan) M(tanh) M(isqrt) M(inv) M(approx_isqrt) M(approx_inv)
#define ARR1(M) M(asin) M(acos) M(atan) M(cos) M(exp) M(log) M(sin) M(tan) M(tanh) M(isqrt) M(inv) M(identity) \
  M(fast_asin) M(fast_acos) M(fast_atan) M(fast_cos) M(fast_exp) M(fast_log) M(fast_sin) M(fast_tan) M(fast_tanh) M(fast_isqrt) M(fast_inv) M(fast_approx_isqrt) M(fast_approx_inv)
#define ARR2(M) M(atan2) M(fast_atan2) M(identity2D)
#define S(n) \
  static void d_##n(const void *i, const void *, void *o) { *(double *)o = vdt::fast_##n(*(const double *)i); } \
  static void f_##n(const void *i, const void *, void *o) { *(float *)o = vdt::fast_##n##f(*(const float *)i); }
FASTS(S)
#define G(n) \
  static void d_p##n(const void *i, const void *, void *o) { *(double *)o = vdt::n(*(const double *)i); } \
  static void f_p##n(const void *i, const void *, void *o) { *(float *)o = vdt::n##f(*(const float *)i); }
G(isqrt) G(inv)
static void d_atan2(const void *i, const void *j, void *o) { *(double *)o = vdt::fast_atan2(*(const double *)i, *(const double *)j); }
static void f_atan2(const void *i, const void *j, void *o) { *(float *)o = vdt::fast_atan2f(*(const float *)i, *(const float *)j); }
static void d_sincos(const void *i, const void *, void *o) { vdt::fast_sincos(*(const double *)i, ((double *)o)[0], ((double *)o)[1]); }
static void f_sincos(const void *i, const void *, void *o) { vdt::fast_sincosf(*(const float *)i, ((float *)o)[0], ((float *)o)[1]); }
enum { N = 5 };
#define A1(n) \
  static void dv_##n(const void *i, const void *, void *o) { vdt::n##v(N, (const double *)i, (double *)o); } \
  static void fv_##n(const void *i, const void *, void *o) { vdt::n##fv(N, (const float *)i, (float *)o); }
ARR1(A1)
#define A2(n) \
  static void dv_##n(const void *i, const void *j, void *o) { vdt::n##v(N, (const double *)i, (const double *)j, (double *)o); } \
  static void fv_##n(const void *i, const void *j, void *o) { vdt::n##fv(N, (const float *)i, (const float *)j, (float *)o); }
ARR2(A2)
#define ES(n) {"fast_" #n, d_##n, 1, true}, {"fast_" #n "f", f_##n, 1, false},
#define EG(n) {#n, d_p##n, 1, true}, {#n "f", f_p##n, 1, false},
#define EA(n) {#n "v", dv_##n, N, true}, {#n "fv", fv_##n, N, false},
const SchedOp SCHED_OPS[] = {FASTS(ES) EG(isqrt) EG(inv) ES(atan2) {"fast_sincos", d_sincos, 2, true}, {"fast_sincosf", f_sincos, 2, false}, ARR1(EA) ARR2(EA)};
const unsigned SCHED_NOPS = sizeof SCHED_OPS / sizeof *SCHED_OPS;
