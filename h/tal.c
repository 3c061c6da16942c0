/* P22: what the individual tests sample and count.  One test function per unit, included unchanged; the generator,
 * the evaluation routines (P21) and the bit supplies (P01-P03) are stubs that record what they are given. */
#include "vh.h"
#include <gsl/gsl_rng.h>
#include <gsl/gsl_randist.h>
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_sf.h>
#include <gsl/gsl_sort.h>
#include <gsl/gsl_permutation.h>
#include <gsl/gsl_heapsort.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_eigen.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_vector.h>
typedef long double real_ld;
#ifdef SMALLFP
#ifndef VH_NATIVE
typedef __CPROVER_floatbv[SMALLFP][SMALLFM] small_t;
#define double small_t
#endif
#endif
#include <dieharder/libdieharder.h>
#define printf(...) (0)
#define fprintf(...) (0)
#define exit vh_exit
#define dumpbits(...) ((void)0)
#define dumpuintbits(...) ((void)0)
#define dumpbitwin(...) ((void)0)
#ifndef NWORDS
#define NWORDS 8
#endif
static uint g_words[NWORDS]; static unsigned g_drawn; static uint g_mask = 0xffffffffu;
static uint next_word(void)
{
  CHECK(g_drawn < NWORDS, "no more outputs are drawn than the samples need");
  if (g_drawn >= NWORDS) vh_stop();
  return g_words[g_drawn++];
}
unsigned long vh_get(const gsl_rng *r) { CHECK(r == rng, "the selected generator is used"); return next_word(); }
#define gsl_rng_get vh_get
static Test T1, T2, *TP[2];
static double PV[4], PW[4];
static void setup(unsigned ts)
{
  unsigned i;
  verbose = 0; g_drawn = 0;
  for (i = 0; i < NWORDS; i++) g_words[i] = (uint)vin() & g_mask;
  TP[0] = &T1; TP[1] = &T2; T1.pvalues = PV; T2.pvalues = PW; T1.tsamples = T2.tsamples = ts;
  for (i = 0; i < 4; i++) PV[i] = PW[i] = -1.0;
}
#define SLOT(P, v) CHECK(P[2] == (double)(v) && P[0] == -1.0 && P[1] == -1.0 && P[3] == -1.0, "the p-value goes to the slot of this run and nowhere else")
/* normal evaluation */
static Xtest x_rec; static unsigned x_calls;
static void vh_xeval(Xtest *x) { x_rec = *x; x_calls++; x->pvalue = 0.625; }
#define Xtest_eval vh_xeval
static unsigned ones(uint w) { unsigned n = 0, i; for (i = 0; i < 32; i++) n += (w >> i) & 1; return n; }
static double sq_arg;
static double vh_sqrt(double x) { sq_arg = x; return 0.75; }

#ifdef U_MONOBIT
#define sqrt vh_sqrt
#include "sts_monobit.c"
void h_tal(void)
{
  unsigned i, n = 0; int want;
  rmax_bits = (uint)vin_range(1, 32); g_mask = rmax_bits == 32 ? 0xffffffffu : (1u << rmax_bits) - 1;
  setup(NWORDS);
  for (i = 0; i < NWORDS; i++) n += ones(g_words[i]);
  sts_monobit(TP, 2);
  want = 2 * (int)n - (int)(rmax_bits * NWORDS);
  CHECK(g_drawn == NWORDS && x_calls == 1, "every sample is drawn and they are judged once");
  CHECK(x_rec.x == (double)want && x_rec.y == 0, "the excess of ones over zeros among all significant bits is judged against zero");
  CHECK(sq_arg == (double)(rmax_bits * NWORDS) && x_rec.sigma == 0.75, "the spread is the root of the number of bits");
  SLOT(PV, 0.625);
  VH_END();
}
#endif
#ifdef U_RUNS
#undef sqrt
#define sqrt vh_sqrt
static uint n_rm;
static uint *r_buf;
static uint bit_at(uint i) { i %= n_rm * NWORDS; return (g_words[NWORDS - 1 - i / n_rm] >> (i % n_rm)) & 1; }
#define get_bit_ntuple vh_ntuple
uint vh_ntuple(uint *buf, uint len, uint nbits, uint off)
{
  unsigned i;
  CHECK(len == NWORDS && nbits == 2 && off < n_rm * NWORDS, "pairs of neighbouring bits of the sample are examined");
  for (i = 0; i < NWORDS; i++) CHECK(buf[i] == g_words[i], "the sample consists of the outputs in order");
  return bit_at(off) + 2 * bit_at(off + 1);   /* P03 */
}
#include "sts_runs.c"
void h_tal(void)
{
  unsigned i, n = 0, r = 0; double p, w;
  rmax_bits = n_rm = RMB; g_mask = (1u << n_rm) - 1;
  setup(NWORDS);
  for (i = 0; i < n_rm * NWORDS; i++) { n += bit_at(i); r += bit_at(i) != bit_at(i + 1); }
  sts_runs(TP, 2);
  CHECK(g_drawn == NWORDS && x_calls == 1, "every sample is drawn and they are judged once");
  CHECK(x_rec.x == (double)r, "every change between neighbouring bits is counted once, the sample read as a ring");
  p = (double)n / (RMB * NWORDS);
  w = 2 * RMB * NWORDS * p * (1 - p);
  CHECK(x_rec.y == w && x_rec.sigma == 2 * (double)0.75 * p * (1 - p) && sq_arg == (double)(RMB * NWORDS), "expectation and spread follow from the share of ones");
  SLOT(PV, 0.625);
  VH_END();
}
#endif
#ifdef U_LAG
#define sqrt vh_sqrt
static double g_u[NWORDS];
static double vh_uniform(gsl_rng *r) { CHECK(r == rng && g_drawn < NWORDS, "no more outputs are drawn than the samples need"); if (g_drawn >= NWORDS) vh_stop(); return g_u[g_drawn++]; }
#define gsl_rng_uniform vh_uniform
#include "rgb_lagged_sums.c"
void h_tal(void)
{
  unsigned i; double s = 0;
  setup(TS); ntuple = LAG;
  for (i = 0; i < NWORDS; i++) { g_u[i] = (double)(int)(g_words[i] & 7) / 8; if (i % (LAG + 1) == LAG) s += g_u[i]; }
  rgb_lagged_sums(TP, 2);
  CHECK(g_drawn == NWORDS && x_calls == 1 && NWORDS == TS * (LAG + 1), "lag outputs are passed over before each of the samples");
  CHECK(x_rec.x == s, "the samples are summed, each once");
  CHECK(x_rec.y == (double)TS / 2 && sq_arg * 12 < (double)TS + 0.01 && sq_arg * 12 > (double)TS - 0.01 && x_rec.sigma == 0.75, "mean and spread of a sum of uniform numbers");
  CHECK(T1.ntuple == LAG, "the lag is reported");
  SLOT(PV, 0.625);
  VH_END();
}
#endif
#ifdef U_KST
static double *k_ptr; static unsigned k_calls, k_which; static double g_u[NWORDS];
static double vh_uniform(gsl_rng *r) { CHECK(r == rng && g_drawn < NWORDS, "no more outputs are drawn than the samples need"); if (g_drawn >= NWORDS) vh_stop(); return g_u[g_drawn++]; }
#define gsl_rng_uniform_pos vh_uniform
static double vh_ks(double *p, int n, unsigned w) { unsigned i; k_calls++; k_which = w; CHECK(n == NWORDS, "all samples are judged"); for (i = 0; i < NWORDS; i++) CHECK(p[i] == g_u[i], "the samples are the outputs in order"); return 0.625; }
#define kstest(p, n) vh_ks(p, n, 0)
#define kstest_kuiper(p, n) vh_ks(p, n, 1)
#include "rgb_kstest_test.c"
void h_tal(void)
{
  unsigned i;
  setup(NWORDS); ks_test = (uint)vin();
  for (i = 0; i < NWORDS; i++) g_u[i] = (double)(int)(g_words[i] & 7) / 8;
  rgb_kstest_test(TP, 2);
  CHECK(k_calls == 1 && k_which == (ks_test >= 3) && g_drawn == NWORDS, "the selected variant judges them once");
  SLOT(PV, 0.625);
  VH_END();
}
#endif
/* class evaluation */
static double *v_x[2], *v_y[2]; static unsigned v_n[2], v_ndof[2], v_calls; static double v_cut[2];
#ifndef VMAX
#define VMAX 8
#endif
static double vx[2][VMAX], vy[2][VMAX];
static void vh_veval(Vtest *v)
{
  unsigned i;
  CHECK(v_calls < 2, "evaluated once"); if (v_calls >= 2) vh_stop();
  v_n[v_calls] = v->nvec; v_ndof[v_calls] = v->ndof; v_cut[v_calls] = v->cutoff;
  CHECK(v->nvec <= VMAX, "number of classes");
  if (v->nvec > VMAX) vh_stop();
  for (i = 0; i < v->nvec; i++) { vx[v_calls][i] = v->x[i]; vy[v_calls][i] = v->y[i]; }
  v->pvalue = v_calls ? 0.25 : 0.375; v->chisq = v_calls ? 64 : 24;
  v_calls++;
}
#ifdef U_VTEST
#define Vtest_eval Vtest_eval_real
#define gsl_sf_gamma_inc_Q(a, x) (0.5)
#include "Vtest.c"
#undef Vtest_eval
#define Vtest_eval vh_veval
#endif
#ifdef U_CRAPS
static double vpow(double b, double e) { double r = 1; int i; for (i = 0; i < (int)e; i++) r *= b; return r; }
#define pow vpow
#define sqrt vh_sqrt
static unsigned long vh_die(gsl_rng *r, unsigned long n) { CHECK(r == rng && n == 6, "dice have six sides"); return next_word() % 6; }
#define gsl_rng_uniform_int vh_die
#ifndef WIN
#define WIN 0
#endif
#include "diehard_craps.c"
void h_tal(void)
{
  unsigned g, i, d = 0, wins = 0, cnt[21], p, t, tries; double sum = 0;
  for (i = 0; i < 21; i++) cnt[i] = 0;
  setup(GAMES);
  for (g = 0; g < GAMES; g++) {
    ASSUME(d + 2 <= NWORDS);
    p = 2 + g_words[d] % 6 + g_words[d + 1] % 6; d += 2; tries = 0;
    if (p == 7 || p == 11) wins++;
    else if (p != 2 && p != 3 && p != 12)
      for (i = 0; i < NWORDS; i++) {
        ASSUME(d + 2 <= NWORDS);
        t = 2 + g_words[d] % 6 + g_words[d + 1] % 6; d += 2; tries++;
        if (t == 7) break;
        if (t == p) { wins++; break; }
      }
    cnt[tries > 20 ? 20 : tries]++;
  }
  diehard_craps(TP, 2);
  CHECK(g_drawn == d && x_calls == 1 && v_calls == 1 && v_n[0] == 21, "the games are played with consecutive throws and judged once");
  CHECK(x_rec.x == (double)wins, "every game won is counted");
  for (i = 0; i < 21; i++) CHECK(vx[0][i] == (double)cnt[i], "every game is counted once, by its number of throws");
  SLOT(PV, 0.625); SLOT(PW, 0.375);
  VH_END();
}
void h_long(void)
{
  unsigned i, k;
  for (k = 18; k < 24; k++) {
    setup(1); v_calls = 0;
    g_words[0] = 1; g_words[1] = 1;                       /* point 4 */
    for (i = 1; i < k; i++) { g_words[2 * i] = 5; g_words[2 * i + 1] = 5; }   /* 12: throw again */
    g_words[2 * k] = 0; g_words[2 * k + 1] = WIN ? 2 : 5;
    diehard_craps(TP, 2);
    CHECK(g_drawn == 2 * k + 2 && x_rec.x == (double)WIN, "a long game is played to its end");
    for (i = 0; i < 21; i++) CHECK(vx[0][i] == (i == (k > 20 ? 20 : k) ? 1 : 0), "long games share the last class");
  }
  VH_END();
}
#ifndef SMALLFP
void h_exp(void)
{
  unsigned i; double s = 0;
  setup(1); T1.tsamples = 1; g_words[0] = g_words[1] = 0;
  diehard_craps(TP, 2);
  for (i = 0; i < 21; i++) { CHECK(vy[0][i] > 0 && (i < 2 || vy[0][i] < vy[0][i - 1] || i == 20), "expected counts"); s += vy[0][i]; }
  CHECK(fabs(s - 1.0) < 1e-9 && fabs(vy[0][0] - 1.0 / 3) < 1e-9 && fabs(vy[0][1] - 122.0 / 648) < 1e-9, "expected counts add up to the number of games");
  CHECK(fabs(x_rec.y - 244.0 / 495) < 1e-9, "the chance of winning is 244/495");
  VH_END();
}
#endif
#endif
#ifdef U_BDAY
static uint g_seen[8]; 
static void vh_sortu(uint *d, size_t s, size_t n)
{
  unsigned i, j; uint t;
  CHECK(s == 1 && n == NM, "all values are sorted");
  for (i = 1; i < NM; i++) for (j = i; j > 0; j--) if (d[j - 1] > d[j]) { t = d[j]; d[j] = d[j - 1]; d[j - 1] = t; }
}
#define gsl_sort_uint vh_sortu
#define gsl_ran_poisson_pdf(k, l) ((k) < KMX - 1 ? 100.0 : 0.0)
#define pow(a, b) (64.0)
static unsigned c_calls, c_kmax; static uint c_js[KMX]; static unsigned c_ns;
static double vh_poisson(uint *js, double l, int kmax, uint ns) { unsigned i; c_calls++; c_kmax = kmax; c_ns = ns; CHECK(kmax == KMX, "classes"); for (i = 0; i < KMX; i++) c_js[i] = js[i]; return 0.625; }
#define chisq_poisson vh_poisson
static uint vh_grb(void *res, uint size, uint n, gsl_rng *r) { CHECK(r == rng && size == 4 && n == 24, "24-bit birthdays of the selected generator"); *(uint *)res = next_word(); return 0; }
#define get_rand_bits vh_grb
#include SRC
void h_tal(void)
{
  uint w[NM], iv[NM]; unsigned t, i, j, rep, want[KMX + 1]; uint x;
  rmax_bits = RMB; g_mask = VMASK; ntuple = NM;
  setup(NWORDS / NM);
  for (i = 0; i <= KMX; i++) want[i] = 0;
  for (t = 0; t < NWORDS / NM; t++) {
    for (i = 0; i < NM; i++) w[i] = g_words[t * NM + i];
    for (i = 1; i < NM; i++) for (j = i; j > 0; j--) if (w[j - 1] > w[j]) { x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
    for (i = 0; i < NM; i++) iv[i] = i ? w[i] - w[i - 1] : w[0];
    rep = 0;       /* values that occur more than once: counted at their first occurrence */
    for (i = 0; i < NM; i++) { unsigned before = 0, after = 0; for (j = 0; j < NM; j++) { if (j < i && iv[j] == iv[i]) before++; if (j > i && iv[j] == iv[i]) after++; } if (!before && after) rep++; }
#ifdef NOADJ       /* two values that both repeat, directly one above the other: see h_adj */
    { uint sv[NM]; for (i = 0; i < NM; i++) sv[i] = iv[i];
      for (i = 1; i < NM; i++) for (j = i; j > 0; j--) if (sv[j - 1] > sv[j]) { x = sv[j]; sv[j] = sv[j - 1]; sv[j - 1] = x; }
      for (i = 0; i + 3 < NM; i++) ASSUME(!(sv[i] == sv[i + 1] && sv[i + 1] != sv[i + 2] && sv[i + 2] == sv[i + 3])); }
#endif
    want[rep < KMX ? rep : KMX]++;
  }
  TEST(TP, 2);
  CHECK(g_drawn == NWORDS && c_calls == 1 && c_ns == NWORDS / NM, "every year is made of fresh birthdays and all are judged once");
  for (i = 0; i < KMX; i++) CHECK(c_js[i] == want[i], "the number of spacings that occur more than once is counted for each year");
  SLOT(PV, 0.625);
  VH_END();
}
void h_adj(void)
{
  static const uint w[4] = {1, 2, 4, 6}; unsigned i;      /* spacings 1, 1, 2, 2 */
  rmax_bits = RMB; g_mask = 0; ntuple = NM; setup(1);
  for (i = 0; i < 4; i++) g_words[i] = w[i];
  TEST(TP, 2);
  CHECK(c_js[2] == 1 && c_js[0] == 0 && c_js[1] == 0, "a repeated spacing directly above another repeated one is counted too");
  VH_END();
}
#endif
#ifdef U_PERM
#define gsl_sf_fact(k) ((double)((k) == 2 ? 2 : (k) == 3 ? 6 : 24))
static gsl_permutation *vp_alloc(size_t n) { gsl_permutation *p = malloc(sizeof(gsl_permutation)); CHECK(n == KP, "permutation length"); p->size = KP; p->data = malloc(KP * sizeof(size_t)); return p; }
static void vp_init(gsl_permutation *p) { size_t i; for (i = 0; i < KP; i++) p->data[i] = i; }
static int vp_copy(gsl_permutation *a, const gsl_permutation *b) { size_t i; for (i = 0; i < KP; i++) a->data[i] = b->data[i]; return 0; }
static int vp_next(gsl_permutation *p)
{
  int i = KP - 2, j, k; size_t t;
  while (i >= 0 && p->data[i] > p->data[i + 1]) i--;
  if (i < 0) return -1;
  j = KP - 1; while (p->data[j] < p->data[i]) j--;
  t = p->data[i]; p->data[i] = p->data[j]; p->data[j] = t;
  for (j = i + 1, k = KP - 1; j < k; j++, k--) { t = p->data[j]; p->data[j] = p->data[k]; p->data[k] = t; }
  return 0;
}
static void vp_free(gsl_permutation *p) { free(p->data); free(p); }
#define gsl_permutation_alloc vp_alloc
#define gsl_permutation_init vp_init
#define gsl_permutation_memcpy vp_copy
#define gsl_permutation_next vp_next
#define gsl_permutation_free vp_free
#define gsl_permutation_fprintf(...) (0)
static void vp_index(size_t *p, const double *d, size_t s, size_t n)
{
  size_t i, j, t;
  CHECK(s == 1 && n == KP, "the whole sample is ranked");
  for (i = 0; i < KP; i++) p[i] = i;
  for (i = 1; i < KP; i++) for (j = i; j > 0; j--) if (d[p[j - 1]] > d[p[j]]) { t = p[j]; p[j] = p[j - 1]; p[j - 1] = t; }
}
#define gsl_sort_index vp_index
#include "rgb_permutations.c"
void h_tal(void)
{
  unsigned i, j, np = KP == 2 ? 2 : 6, tot = 0, nz = 0, same = 1;
  g_mask = 7;
  setup(NWORDS / KP); ntuple = NT;
  rgb_permutations(TP, 2);
  CHECK(g_drawn == NWORDS && v_calls == 1 && v_n[0] == np && v_ndof[0] == 0, "every sample consists of fresh outputs; one class per ordering");
  for (i = 0; i < np; i++) { tot += vx[0][i] == 1 ? 1 : vx[0][i] == 2 ? 2 : 0; nz += vx[0][i] != 0; CHECK(vy[0][i] * np > (double)(NWORDS / KP) - 0.01 && vy[0][i] * np < (double)(NWORDS / KP) + 0.01, "every ordering is expected equally often"); }
  CHECK(tot == NWORDS / KP, "every sample is counted once");
  for (i = 0; i < KP; i++) for (j = i + 1; j < KP; j++) if ((g_words[i] <= g_words[j]) != (g_words[KP + i] <= g_words[KP + j])) same = 0;
  CHECK((nz == 1) == same, "two samples are in the same class exactly if their values are ordered alike");
  CHECK(T1.ntuple == KP, "the sample length is reported");
  SLOT(PV, 0.375);
  VH_END();
}
#endif
#ifdef U_DRUNS
static double r_a[2], r_x[2]; static unsigned r_n;
#define gsl_sf_gamma_inc_Q(a, x) (r_n < 2 ? (r_a[r_n] = (a), r_x[r_n] = (x), r_n++, r_n == 1 ? 0.375 : 0.25) : (r_n++, 0.0))
#include "diehard_runs.c"
#define NEARR(p, q) ((p) - (q) <= 1e-7 * (1 + ((q) < 0 ? -(q) : (q))) && (q) - (p) <= 1e-7 * (1 + ((q) < 0 ? -(q) : (q))))
/* the ring of samples is cut into maximal rising (falling or level) runs; counts by length, 6 and more together */
static void ref(unsigned n, int *up, int *dn)
{
  unsigned t, lu = 1, ld = 1; uint x, y;
  for (t = 0; t < 6; t++) up[t] = dn[t] = 0;
  for (t = 1; t <= n; t++) {
    x = t == n ? g_words[0] : g_words[t - 1]; y = t == n ? g_words[n - 1] : g_words[t];
    if (y > x) { dn[(ld > 6 ? 6 : ld) - 1]++; ld = 1; lu++; } else { up[(lu > 6 ? 6 : lu) - 1]++; lu = 1; ld++; }
  }
}
static double form(int *c, unsigned n)
{
  static const double A[6][6] = {{4529.4, 9044.9, 13568, 18091, 22615, 27892}, {9044.9, 18097, 27139, 36187, 45234, 55789}, {13568, 27139, 40721, 54281, 67852, 83685},
    {18091, 36187, 54281, 72414, 90470, 111580}, {22615, 45234, 67852, 90470, 113262, 139476}, {27892, 55789, 83685, 111580, 139476, 172860}};
  static const double Bc[6] = {1.0 / 6, 5.0 / 24, 11.0 / 120, 19.0 / 720, 29.0 / 5040, 1.0 / 840};
  double s = 0; unsigned i, j;
  for (i = 0; i < 6; i++) for (j = 0; j < 6; j++) s += (c[i] - n * Bc[i]) * (c[j] - n * Bc[j]) * A[i][j];
  return s / n;
}
static void one(unsigned n)
{
  int up[6], dn[6];
  r_n = 0; g_drawn = 0; T1.tsamples = T2.tsamples = n;
  ref(n, up, dn);
  diehard_runs(TP, 2);
  CHECK(g_drawn == n && r_n == 2 && r_a[0] == 3.0 && r_a[1] == 3.0, "all samples are used; six classes, six degrees of freedom");
  CHECK(NEARR(2 * r_x[0], form(up, n)), "every rising run is counted once, by its length");
  CHECK(NEARR(2 * r_x[1], form(dn, n)), "every falling run is counted once, by its length");
  SLOT(PV, 0.375); SLOT(PW, 0.25);
}
void h_tal(void)
{
  unsigned p, i;
  setup(4);
  for (p = 0; p < 27; p++) { g_words[0] = p % 3; g_words[1] = p / 3 % 3; g_words[2] = p / 9; one(3); }
  for (p = 5; p < 8; p++) { for (i = 0; i < 10; i++) g_words[i] = i < p ? i : 100; one(10); for (i = 0; i < 10; i++) g_words[i] = 4000000000u - g_words[i]; one(10); }
  for (i = 0; i < 10; i++) g_words[i] = 0xfffffff0u + i; one(10);
  VH_END();
}
#endif
#ifdef U_RANK
static unsigned b_calls; static int b_rank[8];
static int vh_rank(uint **m, int rows, int cols)
{
  int i;
  CHECK(rows == ROWS && cols == COLS && b_calls < TS, "one rank per sample, of a matrix of the test's shape");
  if (b_calls >= TS) vh_stop();
  for (i = 0; i < ROWS; i++) CHECK(m[i][0] == g_words[b_calls * ROWS + i], "the rows are consecutive outputs");
  return b_rank[b_calls++];
}
#define binary_rank vh_rank
#include SRC
void h_tal(void)
{
  unsigned t, i, cnt[ROWS + 1]; double s = 0;
  rmax_bits = 32; setup(TS);
  for (i = 0; i <= ROWS; i++) cnt[i] = 0;
  for (t = 0; t < TS; t++) { b_rank[t] = (int)vin_range(0, ROWS); cnt[b_rank[t] < LOWEST ? LOWEST : b_rank[t]]++; }
  TEST(TP, 2);
  CHECK(g_drawn == NWORDS && b_calls == TS && v_calls == 1 && v_n[0] == ROWS + 1, "every sample is a fresh matrix and all are judged once");
  for (i = 0; i <= ROWS; i++) CHECK(vx[0][i] == (double)(int)cnt[i], "each rank is counted in its class, small ranks together");
  SLOT(PV, 0.375);
  VH_END();
}
void h_exp(void)   /* P(rank r of a random m x n bit matrix) = 2^(r(n+m-r)-mn) prod_{i<r} (1-2^(i-n))(1-2^(i-m))/(1-2^(i-r)) */
{
  int r, i, k, e; double p, q, low = 0;
  rmax_bits = 32; setup(TS);
  for (i = 0; i < NWORDS; i++) g_words[i] = 1;
  for (i = 0; i < TS; i++) b_rank[i] = ROWS;
  TEST(TP, 2);
  for (r = 0; r <= ROWS; r++) {
    p = 1; e = r * (COLS + ROWS - r) - ROWS * COLS;
    for (; e < 0; e++) p /= 2;
    for (i = 0; i < r; i++) {
      double a = 1, b = 1, c = 1;
      for (k = i; k < COLS; k++) a /= 2;
      for (k = i; k < ROWS; k++) b /= 2;
      for (k = i; k < r; k++) c /= 2;
      p *= (1 - a) * (1 - b) / (1 - c);
    }
    low += p;
    if (r < LOWEST) { CHECK(vy[0][r] == 0, "small ranks are expected together"); continue; }
    q = r == LOWEST ? low : p;
    CHECK(vy[0][r] > TS * q * 0.9998 && vy[0][r] < TS * q * 1.0002, "ranks are expected with their probabilities");
  }
  VH_END();
}
#endif
#ifdef U_SQUEEZE
static double g_u[64];
static double vh_uniform(gsl_rng *r) { CHECK(r == rng && g_drawn < 64, "no more outputs are drawn than the samples need"); if (g_drawn >= 64) vh_stop(); return g_u[g_drawn++]; }
#define gsl_rng_uniform vh_uniform
static double vceil(double x) { double f = (double)(long)x; return f < x ? f + 1 : f; }
#define ceil vceil
#include "diehard_squeeze.c"
void h_tal(void)
{
  unsigned n, i, j, want; double s = 0;
  for (n = 1; n < 51; n += n < 8 ? 1 : n < 44 ? 6 : 1) {
    setup(1); v_calls = 0;
    for (i = 0; i < 64; i++) g_u[i] = i + 1 < n ? 0.9375 : i + 1 == n ? 1e-10 : 0.5;
    diehard_squeeze(TP, 2);
    want = n < 6 ? 6 : n > 48 ? 48 : n;
    CHECK(g_drawn == (n > 48 ? 48 : n) && v_calls == 1 && v_n[0] == 43, "the squeeze ends when the value reaches one, or after 48 steps");
    for (j = 0; j < 43; j++) CHECK(vx[0][j] == (j == want - 6 ? 1 : 0), "the number of steps is counted in its class, short and long ones at the ends");
    SLOT(PV, 0.375);
  }
  for (j = 0; j < 43; j++) { CHECK(vy[0][j] > 0 && vy[0][j] < 0.09, "expected counts"); s += vy[0][j]; }
  CHECK(s > 0.9999 && s < 1.0001, "expected counts add up to the number of samples");
  for (j = 1; j < 42; j++) CHECK(j <= 16 ? vy[0][j] > vy[0][j - 1] : vy[0][j] < vy[0][j - 1], "expected counts rise to step 22 and fall after it");
  VH_END();
}
#endif
#ifdef U_DIST
static double g_u[NWORDS];
static double vh_uniform(gsl_rng *r) { CHECK(r == rng && g_drawn < NWORDS, "no more outputs are drawn than the samples need"); if (g_drawn >= NWORDS) vh_stop(); return g_u[g_drawn++]; }
#define gsl_rng_uniform_pos vh_uniform
static const double root[] = {0, 1, 1.41421356237, 1.73205080757, 2, 2.2360679775, 2.44948974278, 2.64575131106, 2.82842712475, 3, 3.16227766017, 3.31662479036, 3.46410161514, 3.60555127546, 3.74165738677, 3.87298334621, 4, 4.12310562562, 4.24264068712,
  4.35889894354, 4.472135955, 4.58257569496, 4.69041575982, 4.79583152331, 4.89897948557, 5, 5.09901951359, 5.19615242271};
static double vroot(double x) { int n = (int)(x / (UNIT * UNIT) + 0.25); if (n < 0 || n > 27) vh_stop(); return root[n] * UNIT; }
#define sqrt vroot
static void vh_heap(void *d, size_t n, size_t s, gsl_comparison_fn_t f)
{
  dTuple *p = d, x; size_t i, j;
  CHECK(s == sizeof(dTuple) && n == NPT, "all points are sorted");
  for (i = 1; i < NPT; i++) for (j = i; j > 0; j--) if (f(p + j - 1, p + j) > 0) { x = p[j]; p[j] = p[j - 1]; p[j - 1] = x; }
}
#define gsl_heapsort vh_heap
static double e_arg; static unsigned e_calls;
static double vh_exp(double x) { e_arg = x; e_calls++; return 0.25; }
#define exp vh_exp
#define gsl_sf_fact(k) ((k) == 1 ? 1.0 : (k) == 2 ? 2.0 : 1e9)
#define gsl_sf_doublefact(k) ((k) == 3 ? 3.0 : (k) == 5 ? 15.0 : 1e9)
static double p_base; static int p_exp;
static double vpow(double b, double e) { double r = 1; int i; p_base = b; p_exp = (int)e; for (i = 0; i < (int)e; i++) r *= b; return r; }
#define pow vpow
#include "rgb_minimum_distance.c"
#ifdef SRC
#include SRC
#endif
static int mind2(void)      /* squared, in units */
{
  int m = 1000000, i, j, k, d, s;
  for (i = 0; i < NPT; i++) for (j = 0; j < i; j++) { s = 0; for (k = 0; k < DIM; k++) { d = (int)g_words[i * DIM + k] - (int)g_words[j * DIM + k]; s += d * d; } if (s < m) m = s; }
  return m;
}
static double volume(double r) { return DIM == 2 ? 3.14159265358979 * r * r : DIM == 3 ? 4.18879020478639 * r * r * r : DIM == 4 ? 4.93480220054468 * r * r * r * r : 5.26378901391432 * r * r * r * r * r; }
static const double qq[] = {0, 0, 0.4135, 0.5312, 0.6202, 1.3789};
void h_tal(void)
{
  unsigned i; int m; double r, v, a, q;
  g_mask = GRID; ntuple = DIM;
  setup(NPT);
#ifdef PATTERN
  { static const uint pat[][15] = PATTERN; for (i = 0; i < NWORDS; i++) g_words[i] = pat[WHICH][i]; }
#endif
  for (i = 0; i < NWORDS; i++) g_u[i] = (double)(int)g_words[i] * UNIT / SCALE;
  m = mind2();
  TEST(TP, 2);
  CHECK(g_drawn == NWORDS, "every point has fresh coordinates");
  r = root[m] * UNIT;
  if (r > BIG) r = BIG;
#ifdef SPHERE2
  a = e_arg + r * r / 0.995;
  CHECK(e_calls == 1 && a < 0.02 * (1 + r * r) && a > -0.02 * (1 + r * r), "the smallest distance between any two points is judged");
  SLOT(PV, 0.75);
#elif defined(PATTERN)
  v = volume(r);
  a = NPT * (NPT - 1) * v / 2 + e_arg;
  CHECK(e_calls == 1 && a < 1e-8 && a > -1e-8, "the smallest distance between any two points is judged");
  q = PV[2] - (1 - 0.25 * (1 + (2 + qq[DIM]) / 6 * NPT * NPT * NPT * v * v));
  CHECK(q < 1e-8 && q > -1e-8 && PV[0] == -1 && PV[1] == -1 && PV[3] == -1, "with the correction for its dimension");
  CHECK(T1.ntuple == DIM, "the dimension is reported");
#endif
  VH_END();
}
#endif
#ifdef U_SPH3
static double g_u[NWORDS];
static double vh_uniform(gsl_rng *r) { CHECK(r == rng && g_drawn < NWORDS, "no more outputs are drawn than the samples need"); if (g_drawn >= NWORDS) vh_stop(); return g_u[g_drawn++]; }
#define gsl_rng_uniform_pos vh_uniform
static const double root[] = {0, 1, 1.41421356237, 1.73205080757, 2, 2.2360679775, 2.44948974278, 2.64575131106, 2.82842712475, 3, 3.16227766017, 3.31662479036, 3.46410161514, 3.60555127546, 3.74165738677, 3.87298334621, 4, 4.12310562562, 4.24264068712,
  4.35889894354, 4.472135955, 4.58257569496, 4.69041575982, 4.79583152331, 4.89897948557, 5, 5.09901951359, 5.19615242271};
static double vroot(double x) { int n = (int)(x + 0.25); if (n < 0 || n > 27) vh_stop(); return root[n]; }
#define sqrt vroot
static double e_arg; static unsigned e_calls;
static double vh_exp(double x) { e_arg = x; e_calls++; return 0.25; }
#define exp vh_exp
#include "diehard_3dsphere.c"
void h_tal(void)
{
  unsigned i, j, k; int m = 1000, s, d; double a, w;
  g_mask = 1;
  setup(NWORDS / 3);
  for (i = 0; i < NWORDS; i++) g_u[i] = (double)(int)g_words[i] / 1000;
  for (i = 0; i < NWORDS / 3; i++) for (j = 0; j < i; j++) { s = 0; for (k = 0; k < 3; k++) { d = (int)g_words[3 * i + k] - (int)g_words[3 * j + k]; s += d * d; } if (s < m) m = s; }
  diehard_3dsphere(TP, 2);
  w = root[m] * m / 30; a = e_arg + w;
  CHECK(g_drawn == NWORDS && e_calls == 1 && a < 0.02 && a > -0.02, "the smallest distance between any two points is judged");
  SLOT(PV, 0.75);
  VH_END();
}
#endif
#ifdef U_BITDIST
static unsigned bp_n; static unsigned long u_pick; static unsigned u_calls;
static double vh_bin(unsigned k, double p, unsigned n) { CHECK(n == 64 && p == 1.0 / VAL && k == bp_n && k <= 64, "classes are the possible counts of a value among 64 n-tuples"); bp_n++; return k == 7 ? 0.5 : 0.25; }
#define gsl_ran_binomial_pdf vh_bin
static unsigned long vh_pick(gsl_rng *r, unsigned long n) { CHECK(n == VAL, "one of the values is picked"); u_calls++; return u_pick; }
#define gsl_rng_uniform_int vh_pick
static double vpow(double b, double e) { double r = 1; int i; for (i = 0; i < (int)e; i++) r *= b; return r; }
#define pow vpow
#include "rgb_bitdist.c"
void h_tal(void)
{
  unsigned i, n1; ntuple = 1;
  rmax_bits = 32; setup(1); u_pick = vin_range(0, 1);
  n1 = ones(g_words[0]) + ones(g_words[1]);
  rgb_bitdist(TP, 2);
  CHECK(g_drawn == NWORDS && v_calls == VAL && v_n[0] == 65 && v_n[1] == 65 && u_calls == 1, "64 n-tuples per sample; each value is judged once");
  i = (unsigned)vin_range(0, 64);
  CHECK(vx[1][i] == (i == n1 ? 1 : 0) && vx[0][i] == (i == 64 - n1 ? 1 : 0), "each value is counted as often as it occurs in the sample");
  CHECK(vy[0][i] == (i == 7 ? 0.5 : 0.25) && vy[1][i] == vy[0][i], "every value has the same expectations");
  SLOT(PV, u_pick ? 0.25 : 0.375);
  VH_END();
}
#endif
#ifdef U_MONO2
static unsigned c_calls; static double *c_cnt; static double c_x[80];
static double vh_cb(double *o, double p, int k, uint ns) { int i; c_calls++; CHECK(p == 0.5 && k == (int)(2 * rmax_bits) && ns == NWORDS / 2, "blocks of two outputs against a fair coin"); for (i = 0; i <= 2 * RMB; i++) c_x[i] = o[i]; return 0.375; }
#define chisq_binomial vh_cb
static double vh_most(double *p, uint n) { return n == 1 ? p[0] : 0.0; }
#define evalMostExtreme vh_most
#define gsl_ran_binomial_pdf(a, b, c) (0.0)
#include "dab_monobit2.c"
void h_tal(void)
{
  unsigned t, i, n, c = 0;
  rmax_bits = RMB; g_mask = RMB == 32 ? 0xffffffffu : (1u << (RMB & 31)) - 1; ntuple = 1;
  setup(NWORDS);
  dab_monobit2(TP, 2);
  CHECK(g_drawn == NWORDS && c_calls == 1, "every output is used and the blocks are judged once");
  i = (unsigned)vin_range(0, 2 * RMB);
  for (t = 0; t < NWORDS; t += 2) c += ones(g_words[t]) + ones(g_words[t + 1]) == i;
  CHECK(c_x[i] == (double)(int)c, "every block is counted once, by its number of ones");
  SLOT(PV, 0.375);
  VH_END();
}
#endif
