/* P13: the sampling driver (libdieharder/std_test.c) */
#include "vh.h"
#include <dieharder/libdieharder.h>
#define printf(...) (0)
#define fprintf(...) (0)
#define snprintf vh_snprintf
static int vh_snprintf(char *b, size_t n, const char *f, ...) { if (n) b[0] = 0; return 0; }
#define exit vh_exit
#include "std_test.c"
#include "vh_cfg.h"

#ifndef NK
#define NK 3
#endif
static Dtest D;
/* ghost state */
static unsigned g_next, g_cap[NK], g_ks, g_expect;
static Test **g_t;
static int g_sized;
int vh_test(Test **t, int i)
{
  unsigned j;
  CHECK(t == g_t, "the sampling routine works on this test's results");
  CHECK((unsigned)i == g_next, "sample slots are filled once each, in order");
  CHECK((unsigned)i < g_cap[0], "no sample is stored beyond the allotted room");
#ifdef REALBUF
  for (j = 0; j < D.nkps; j++) t[j]->pvalues[i] = 0.25 * j + 0.01 * i;
#endif
  g_next++;
  return 0;
}
static double ks_common(double *pv, int count, int kuiper)
{
  double p;
  CHECK((ks_test >= 3) == kuiper, "the selected KS variant is used");
  CHECK(g_ks < D.nkps, "one KS test per statistic");
  if (g_ks >= D.nkps) vh_stop();
  CHECK(pv == g_t[g_ks]->pvalues, "each statistic is judged on its own p-values");
  CHECK(count >= 0 && (unsigned)count == g_next, "the KS test sees every sample accumulated so far");
  p = vin_double();
  ASSUME(p >= 0.0 && p <= 1.0);
  g_ks++;
  return p;
}
double kstest(double *pv, int count) { return ks_common(pv, count, 0); }
double kstest_kuiper(double *pv, int count) { return ks_common(pv, count, 1); }

static void common(void)
{
  vh_cfg(); verbose = 0; vh_exit_ok = 0;
  D.nkps = (unsigned)vin_range(1, NK); D.test = vh_test; D.sname = "st"; D.name = "n"; D.description = "d";
  g_ks = 0;
  ks_test = (int)vin_range(0, 4);
}
static Test T[NK], *TP[NK];
static double pvbuf[NK];
/* std_test on an arbitrary state, any numbers of samples (loop invariant) */
void h_std(void)
{
  unsigned j, first, want, start;
  common();
  Xoff = (unsigned)vin_range(1, 0x7fffffff); Xstep = (unsigned)vin_range(1, 0x7fffffff);
  first = (unsigned)vin_range(0, 1);
  start = (unsigned)vin_range(0, 0x7fffffff);
  for (j = 0; j < NK; j++) {
    TP[j] = &T[j]; T[j].pvalues = &pvbuf[j]; T[j].psamples = start;
    T[j].ks_pvalue = first ? 0.0 : vin_double();
    ASSUME(T[j].ks_pvalue >= 0.0 && T[j].ks_pvalue <= 1.0);
  }
  if (first) { ASSUME(start >= 1); g_next = 0; want = start < Xoff ? start : Xoff; }
  else {
    ASSUME(T[0].ks_pvalue > 0.0 && start <= Xoff);
    g_next = start;
    want = (vh_u64)start + Xstep < Xoff ? start + Xstep : Xoff;
  }
  g_cap[0] = Xoff > start ? Xoff : start;
  g_t = TP;
  g_expect = want;
  std_test(&D, TP);
  CHECK(g_next == want, "exactly the requested number of samples is taken, never more than the cutoff");
  CHECK(g_ks == D.nkps, "every statistic gets its final p-value");
  for (j = 0; j < NK; j++) if (j < D.nkps) CHECK(T[j].psamples == want, "the sample count reported is the number of samples taken");
  VH_END();
}
#ifdef REALBUF
/* the whole life of a test, with the real storage */
void h_life(void)
{
  Test **t;
  unsigned j, r, ts, ps, eff, want, std;
  common();
  all = C_ALL ? YES : NO;
  multiply_p = C_MUL;
  D.nkps = NK;
  D.psamples_std = std = C_STD; D.tsamples_std = (unsigned)vin_range(1, 0xffffffffu);
  ts = (unsigned)vin(); ps = C_PS;
  Xtrategy = C_XT;
  Xoff = C_XOFF; Xstep = C_XSTEP;
  t = create_test(&D, ts & 0xffffffffu, ps);
  eff = (all == YES || ps == 0) ? (unsigned)(std * multiply_p) : ps;
  if (eff < 1) eff = 1;
  g_t = t;
  for (j = 0; j < NK; j++) if (j < D.nkps) {
    CHECK(t[j]->tsamples == ((all == YES || (unsigned)ts == 0) ? D.tsamples_std : (unsigned)ts), "samples per test: the user's number, or the standard one");
    CHECK(t[j]->psamples == eff, "p-values per test: the user's number, or the scaled standard one, at least 1");
    CHECK(t[j]->ks_pvalue == 0.0, "a new test has no result yet");
  }
  g_cap[0] = (Xtrategy != 0 && Xoff > eff) ? Xoff : eff;
  g_next = 0; g_ks = 0;
  std_test(&D, t);
  want = eff < Xoff ? eff : Xoff;
  CHECK(g_next == want && t[0]->psamples == want, "the first round takes the requested samples, up to the cutoff");
  for (r = 0; r < 2; r++) {
    if (Xtrategy == 0 || want >= Xoff) break;
    ASSUME(t[0]->ks_pvalue > 0.0);
    g_ks = 0;
    std_test(&D, t);
    want = want + Xstep < Xoff ? want + Xstep : Xoff;
    CHECK(g_next == want && t[0]->psamples == want, "each further round adds the step, up to the cutoff");
  }
  destroy_test(&D, t);
  VH_END();
}
#endif
