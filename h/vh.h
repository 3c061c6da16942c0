/*
 * vh.h - harness support.  The same harness text is used three ways:
 *   - symbolically by CBMC (goto-cc defines __CPROVER__): vin() is an
 *     arbitrary value, CHECK() an obligation;
 *   - natively with -DVH_NATIVE, replaying recorded vin() values
 *     (VH_VALUES=file) against the real code;
 *   - natively with -DVH_NATIVE and VH_SEARCH=iterations,seed: look for a
 *     failing input once an obligation has failed.
 */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#include <unistd.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <time.h>

typedef unsigned long long vh_u64;
typedef unsigned int vh_u32;

#ifdef VH_NATIVE
#define VH_CONTRACT(...)
extern vh_u64 vin(void);
extern vh_u64 vin_range(vh_u64 lo, vh_u64 hi);
extern void vh_assume(int c);
extern void vh_check(int c, const char *name);
extern void vh_stop(void);           /* legitimate early end of the run */
#define ASSUME(c) vh_assume((c) ? 1 : 0)
#define CHECK(c, name) vh_check((c) ? 1 : 0, name)
#define VH_END() ((void)0)
#else
#define VH_CONTRACT(...) __VA_ARGS__
vh_u64 nondet_vh(void);
/* the tap only puts the value into the verifier's trace, for native replay */
static void vh_tap(vh_u64 tap_value) { (void)tap_value; }
static vh_u64 vin(void) { vh_u64 v = nondet_vh(); vh_tap(v); return v; }
static vh_u64 vin_range(vh_u64 lo, vh_u64 hi)
{
  vh_u64 v = nondet_vh();
  __CPROVER_assume(v >= lo && v <= hi);
  vh_tap(v);
  return v;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, name) __CPROVER_assert(c, name)
static void vh_stop(void) { __CPROVER_assume(0); }
/* must FAIL: shows that the end of the harness is reachable */
#define VH_END() __CPROVER_assert(0, "vacuity-guard")
#endif

static double vin_double(void)
{
  union { vh_u64 u; double d; } c;
  c.u = vin();
  return c.d;
}

/* exit() as seen by the code under test: allowed only where the harness says */
static int vh_exit_ok;
#ifdef VH_EXIT_HOOK
static void vh_exit_hook(int code);
#else
#define vh_exit_hook(code) ((void)0)
#endif
static void vh_exit(int code)
{
  vh_exit_hook(code);
  CHECK(vh_exit_ok, "the program does not terminate here");
  vh_stop();
}
#endif
