/* P20: binary rank (libdieharder/rank.c) and the rank tests built on it */
#include "vh.h"
#include <dieharder/libdieharder.h>
#define printf(...) (0)
#define fprintf(...) (0)
void dumpbits(uint *d, uint n) { }
#ifdef RANK
#include "rank.c"
#ifndef ROWS
#define ROWS 4
#endif
#ifndef COLS
#define COLS 8
#endif
#define WORDS ((COLS + 31) / 32)
static uint MX[ROWS][WORDS], OX[ROWS][WORDS], *MP[ROWS];
#define S0(a) ((a) == 0 ? 1u : 0u)
#define S1(a) (S0(a) + S0((a) ^ Z[0]))
#define S2(a) (S1(a) + S1((a) ^ Z[1]))
#define S3(a) (S2(a) + S2((a) ^ Z[2]))
#define S4(a) (S3(a) + S3((a) ^ Z[3]))
#define S5(a) (S4(a) + S4((a) ^ Z[4]))
#define S6(a) (S5(a) + S5((a) ^ Z[5]))
#define SUB_(n) S##n(0ULL)
#define SUBX(n) SUB_(n)
#define SUB SUBX(ROWS)
/* a matrix of ROWS rows has rank r exactly if 2^(ROWS-r) sets of its rows sum to zero */
void h_rank(void)
{
  unsigned i, j, zero, r; int got; vh_u64 Z[6] = {0, 0, 0, 0, 0, 0};
  for (i = 0; i < ROWS; i++) {
    MP[i] = MX[i];
    for (j = 0; j < WORDS; j++) {
      MX[i][j] = (uint)vin();
#ifdef LIVE
      MX[i][j] &= LIVE;       /* bits of this mask are arbitrary, the others 0 */
#endif
      OX[i][j] = MX[i][j];
      if (j == WORDS - 1 && COLS % 32) OX[i][j] &= (1u << (COLS % 32)) - 1;   /* only the first COLS bits belong to the matrix */
    }
  }
  for (i = 0; i < ROWS; i++) { Z[i] = 0; for (j = 0; j < WORDS; j++) Z[i] |= (vh_u64)OX[i][j] << (32 * j); }
  zero = SUB;
  got = binary_rank(MP, ROWS, COLS);
  CHECK(got >= 0 && got <= ROWS && got <= COLS, "the rank lies within the dimensions");
  r = (unsigned)got;
  CHECK(zero == 1u << (ROWS - r), "the result is the rank of the matrix over GF(2)");
  VH_END();
}
#else
/* rank tests: matrices are made of the next 32-bit outputs; each rank is counted once in its class */
#define TS 3
static uint g_words[6 * TS > 32 * TS ? 6 * TS : 32 * TS];
static unsigned g_drawn, g_ranks, g_evals;
static double g_x[40], g_y[40]; static unsigned g_nvec;
static int g_rank[TS];
unsigned long gsl_rng_get(const gsl_rng *r) { CHECK(r == rng, "the selected generator is used"); if (g_drawn >= NROW * TS) { CHECK(0, "no more outputs are used than the matrices need"); vh_stop(); } return g_words[g_drawn++]; }
int binary_rank(uint **m, int rows, int cols)
{
  int i;
  CHECK(rows == NROW && cols == NCOL, "the matrix has the announced dimensions");
  CHECK(g_ranks < TS, "each matrix is examined once");
  if (g_ranks >= TS) vh_stop();
  CHECK(g_drawn == (g_ranks + 1) * NROW, "the matrix is made of fresh outputs");
  for (i = 0; i < NROW; i++) CHECK(m[i][0] == g_words[g_ranks * NROW + i], "row i of the matrix is the i-th new output");
  return g_rank[g_ranks++];
}
void Vtest_eval(Vtest *v)
{
  unsigned k;
  g_evals++;
  g_nvec = v->nvec;
  CHECK(v->nvec == NROW + 1, "one class per possible rank");
  for (k = 0; k <= NROW; k++) { g_x[k] = v->x[k]; g_y[k] = v->y[k]; }
  v->pvalue = 0.25;
}
#ifdef VH_NATIVE
double gsl_sf_gamma_inc_Q(double a, double x) { return 0.5; }   /* called by the unused Vtest_eval_real only */
void dumpuintbits(unsigned int *d, unsigned int n) {}               /* debug output */
#endif
#define Vtest_eval Vtest_eval_real
#include "Vtest.c"
#undef Vtest_eval
#include SRC
static Test T1, *TP[1];
static double PV[4];
void h_ranktest(void)
{
  unsigned i, k, cnt[NROW + 1]; double tot;
  verbose = 0; rmax_bits = 32; random_max = UINT_MAX;
  for (i = 0; i < NROW * TS; i++) g_words[i] = (uint)vin();
  for (k = 0; k <= NROW; k++) cnt[k] = 0;
  for (i = 0; i < TS; i++) { unsigned rk = (unsigned)vin_range(0, NROW); g_rank[i] = (int)rk; cnt[rk < LOWEST ? LOWEST : rk]++; }
  TP[0] = &T1; T1.pvalues = PV; T1.tsamples = TS;
  PV[0] = PV[1] = PV[2] = PV[3] = -1.0;
  TEST(TP, 2);
  CHECK(g_ranks == TS && g_evals == 1, "every matrix is examined and the counts are evaluated once");
  for (k = 0; k <= NROW; k++) CHECK(g_x[k] == (double)cnt[k], "each matrix is counted once, in the class of its rank");
  CHECK(PV[2] == 0.25 && PV[0] == -1.0 && PV[1] == -1.0 && PV[3] == -1.0, "the p-value goes to the slot of this run");
  tot = 0.0;
  for (k = 0; k <= NROW; k++) { CHECK(g_y[k] >= 0.0 && (g_y[k] > 0.0) == (k >= LOWEST), "expected counts"); tot += g_y[k]; }
  CHECK(fabs(tot - TS) < 1e-4 * TS, "expected counts add up to the number of matrices");
  VH_END();
}
#endif
