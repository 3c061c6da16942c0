/* P14: when a run stops (dieharder/run_test.c, execute_test and run_test) */
#include "vh.h"
#define fprintf(...) (0)
#define printf(...) (0)
#define exit vh_exit
#include "run_test.c"
#include "vh_cfg.h"

#ifndef NK
#define NK 3
#endif
static Test T[NK], *TP[NK];
static Dtest D;
#ifndef ROUNDS
#define ROUNDS 3
#endif
/* ghost state */
static int g_round, g_stop, g_output_due, g_seeded, g_created, g_destroyed, g_reported;
static unsigned long g_setseed, g_rand;

static double tail(double p) { return 0.5 - fabs(p - 0.5); }   /* distance to the nearer end of [0,1] */
static unsigned i_; static int fail_, weak_;
#define i i_
#define fail fail_
#define weak weak_
static void new_results(void)
{
  fail = weak = 0;
  for (i = 0; i < NK; i++) {
    double p = vin_double(), m;
    ASSUME(p >= 0.0 && p <= 1.0);
    m = tail(p);
    /* results within rounding error of a threshold are left open */
    ASSUME(m < Xfail - 1e-15 || m > Xfail + 1e-15);
    ASSUME(m < Xweak - 1e-15 || m > Xweak + 1e-15);
    T[i].ks_pvalue = p;
    if (i < D.nkps) { if (m < Xfail) fail = 1; if (m < Xweak) weak = 1; }
  }
  { unsigned ps = (unsigned)vin(); for (i = 0; i < NK; i++) T[i].psamples = ps; }
  g_stop = (Xtrategy != 1 && Xtrategy != 2) || fail || T[0].psamples >= Xoff || (Xtrategy == 1 && !weak);
}
#undef i
#undef fail
#undef weak
unsigned long random_seed(void) { return g_rand; }
void gsl_rng_set(const gsl_rng *r, unsigned long s)
{
  CHECK(!g_created || !g_round, "the generator is only reseeded before the test starts");
  g_seeded++; g_setseed = s;
}
Test **create_test(Dtest *d, uint ts, uint ps)
{
  CHECK(d == &D && ts == tsamples && ps == psamples, "the requested test is set up with the requested sample sizes");
  g_created++;
  return TP;
}
void std_test(Dtest *d, Test **t)
{
  CHECK(d == &D && t == TP, "the requested test is run");
  CHECK(!g_output_due, "every round of samples is reported before the next");
  CHECK(g_round == 0 || !g_stop, "sampling never continues past the stop condition");
  if (g_round >= ROUNDS) vh_stop();
  g_round++;
  new_results();
  g_output_due = 1;
}
void output(Dtest *d, Test **t)
{
  CHECK(d == &D && t == TP && g_output_due, "each round is reported exactly once");
  g_output_due = 0; g_reported++;
}
void destroy_test(Dtest *d, Test **t)
{
  CHECK(d == &D && t == TP, "the test that was set up is released");
  CHECK(g_round > 0 && g_stop && !g_output_due, "sampling only stops when the stop condition holds");
  g_destroyed++;
}
static void setup(void)
{
  unsigned i;
  for (i = 0; i < NK; i++) TP[i] = &T[i];
  vh_cfg(); verbose = 0; vh_exit_ok = 0;
  D.nkps = (unsigned)vin_range(1, NK); D.sname = "st";
  Xtrategy = (unsigned)vin_range(0, 3); Xoff = (unsigned)vin();
#ifdef XF
  Xfail = XF; Xweak = XW;
#else
  Xfail = vin_double(); Xweak = vin_double();
#endif
  ASSUME(Xfail > 1e-12 && Xfail <= Xweak && Xweak < 0.5);
  strategy = (double)vin_range(0, 2); Seed = vin(); seed = vin(); g_rand = vin();
  tsamples = (unsigned)vin(); psamples = (unsigned)vin();
  g_round = g_stop = g_output_due = g_seeded = g_created = g_destroyed = g_reported = 0;
}
static void post(unsigned long seed0)
{
  CHECK(g_created == 1 && g_destroyed == 1 && g_round == g_reported, "one test, set up and released once");
  if (strategy) CHECK(g_seeded == 1 && g_setseed == (Seed ? Seed : g_rand) && seed == g_setseed, "per-test reseeding uses the user's seed if given, else a random one");
  else CHECK(g_seeded == 0 && seed == seed0, "without per-test reseeding the generator continues its sequence");
}
void h_execute(void)
{
  unsigned long s0;
  setup();
  dh_test_types[7] = &D;
  s0 = seed;
  execute_test(7);
  post(s0);
  VH_END();
}
static Dtest D2;
/* run_test: selection by number or by name */
void h_run(void)
{
  unsigned n, byname;
  unsigned long s0;
  setup();
  Xtrategy = 0; Xfail = 0.000001; Xweak = 0.005;
  D2.sname = "other"; D2.nkps = 1;
  for (n = 0; n < MAXTESTS; n++) dh_test_types[n] = NULL;
  dh_test_types[2] = &D2;
  dh_test_types[5] = &D;
  s0 = seed;
  byname = (unsigned)vin_range(0, 1);
  if (byname) {
    dtest_num = -1;
    strcpy(dtest_name, "st");
    if (vin_range(0, 1)) { dtest_name[0] = (char)vin(); vh_exit_ok = dtest_name[0] != 's'; }
  } else {
    dtest_num = (int)vin();
    ASSUME(dtest_num >= 0 && dtest_num != 2);
    vh_exit_ok = dtest_num != 5;
  }
  run_test();
  CHECK(!vh_exit_ok, "an unknown test is refused");
  CHECK(g_created == 1 && dtest_num == 5, "the selected test and no other is run");
  VH_END();
}
