/* P21: from counts to a p-value: Vtest_eval, Xtest_eval, the chisq_* family, kstest, kstest_kuiper */
#include "vh.h"
#include <gsl/gsl_rng.h>
#include <gsl/gsl_randist.h>
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_sf.h>
#include <gsl/gsl_sort.h>
#include <gsl/gsl_permutation.h>
#include <gsl/gsl_heapsort.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_eigen.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_vector.h>
typedef long double real_ld;
#ifdef SMALLFP
/* symbolically, the code's "double" is a narrow binary floating point type: all values of this
 * unit are exact in it, so the results are the same as in double; replays use double itself */
#ifndef VH_NATIVE
typedef __CPROVER_floatbv[SMALLFP][SMALLFM] small_t;
#define double small_t
#endif
#endif
#include <dieharder/libdieharder.h>
#define printf(...) (0)
#define fprintf(...) (0)
#ifndef NB
#define NB 4
#endif
static double q_a, q_x; static unsigned q_calls;
#define gsl_sf_gamma_inc_Q(a, x) (q_a = (a), q_x = (x), q_calls++, 0.375)
#define CLOSE(a, b) (fabs((a) - (b)) <= 1e-9 * (1.0 + fabs(b)))
static double P2[] = {1, 2, 4, 8, 16, 32, 64};
#ifdef U_VTEST
#ifndef WHICH
#define WHICH 0
#endif
#include "Vtest.c"
/* expected counts run through all combinations of {1,2,4,8}, cutoff 4; observed counts are arbitrary small
 * numbers; everything is exact (pooled expectations that are not a power of two are left out) */
static double QC[4] = {1, 2, 4, 8};
static unsigned z_pat; static double z_y[5];
static void one(unsigned n, unsigned pat, unsigned given)
{
  double ref = 0, px = 0, py = 0; unsigned i, cls = 0; Vtest v;
  Vtest_create(&v, n);
  CHECK(v.nvec == n && v.ndof == 0 && v.cutoff == 5.0, "a new evaluation has the requested classes, no preset degrees of freedom and cutoff 5");
  for (i = 0; i < n; i++) CHECK(v.x[i] == 0.0 && v.y[i] == 0.0, "a new evaluation starts with empty classes");
  v.cutoff = 4; v.ndof = given; q_calls = 0;
  for (i = 0; i < n; i++) { v.x[i] = (double)(unsigned char)vin_range(0, 7); v.y[i] = z_pat ? z_y[i] : QC[(pat >> (2 * i)) & 3]; }
  for (i = 0; i < n; i++)
    if (v.y[i] >= 4) { ref += (v.x[i] - v.y[i]) * (v.x[i] - v.y[i]) / v.y[i]; cls++; } else { px += v.x[i]; py += v.y[i]; }
  if (py == 5 || py == 6 || py == 7) return;
  if (py >= 4) { ref += (px - py) * (px - py) / py; cls++; }
  if (given == 0 && cls < 2) return;
  Vtest_eval(&v);
  CHECK(q_calls == 1 && v.pvalue == 0.375, "the p-value is the upper tail of the chi-square distribution");
  CHECK(v.ndof == (given ? given : cls - 1) && q_a == v.ndof / 2.0, "degrees of freedom: as given, else one less than the classes used");
  CHECK(v.chisq == ref && q_x == ref / 2, "every class with a large enough expectation contributes once, the others as one class");
  Vtest_destroy(&v);
}
void h_vzero(void)      /* classes that are never expected, more than one class to pool */
{
  static const double ys[][5] = {{8, 2, 0, 2, 4}, {0, 4, 4, 0, 8}, {2, 8, 8, 2, 0}, {0, 0, 4, 8, 1}, {1, 2, 8, 8, 1}};
  unsigned i;
  verbose = 0; z_pat = 1;
  for (i = 0; i < 5; i++) z_y[i] = ys[WHICH][i];
  one(5, 0, GIVEN);
  VH_END();
}
void h_vtest(void)
{
  unsigned p;
  verbose = 0;
  for (p = LO; p < HI; p++) one(NB, p, GIVEN);
  VH_END();
}
#endif
#ifdef U_XTEST
static double x_a, x_s; static unsigned x_calls;
#define gsl_cdf_gaussian_P(a, s) (x_a = (a), x_s = (s), x_calls++, 0.625)
#include "Xtest.c"
void h_xtest(void)
{
  Xtest t, o;
  verbose = 0;
  t.x = (double)(int)vin_range(0, 2047) / 16; t.y = (double)(int)vin_range(0, 2047) / 16; t.sigma = (double)(int)vin_range(1, 2047) / 4; t.pvalue = -1.0; t.npts = (uint)vin();
  o = t;
  Xtest_eval(&t);
  CHECK(x_calls == 1 && x_a == o.y - o.x && x_s == o.sigma, "the p-value is the normal probability of expected minus observed at the given spread");
  CHECK(t.pvalue == 0.625 && t.x == o.x && t.y == o.y && t.sigma == o.sigma && t.npts == o.npts, "only the p-value is set");
  VH_END();
}
#endif
#ifdef U_CHI
/* probabilities with an exact binary value; the class index and parameters are checked */
static double PD[5] = {0.125, 0.25, 0.5, 0.0625, 0.25};
static unsigned pd_off, pd_n;
static double pd(unsigned k, double par) { CHECK(k >= pd_off && k - pd_off <= KM, "probabilities are asked for existing classes"); CHECK(par == 0.75, "with the given parameter"); return PD[(k - pd_off) % 5]; }
#define gsl_ran_poisson_pdf(k, l) pd((k), (l))
#define gsl_ran_geometric_pdf(k, p) pd((k), (p))
static double pdb(unsigned k, double p, unsigned n) { CHECK(n == KM, "of the given number of trials"); return pd(k, p); }
#define gsl_ran_binomial_pdf(k, p, n) pdb((k), (p), (n))
#define log(x) ((x) - 1)
#include "chisq.c"
#undef log
void h_poisson(void)
{
  unsigned o[KM], k; double ref = 0, e, p;
  verbose = 0; pd_off = GEO;
  for (k = 0; k < KM; k++) { o[k] = (unsigned)vin_range(0, 7); e = 16 * PD[k]; ref += ((double)o[k] - e) * ((double)o[k] - e) / e; }
#if GEO
  p = chisq_geometric(o, 0.75, KM, 16);
#else
  p = chisq_poisson(o, 0.75, KM, 16);
#endif
  CHECK(q_calls == 1 && p == 0.375 && q_a == (KM - 1) / 2.0, "one less degree of freedom than classes");
  CHECK(q_x == ref / 2, "every class contributes once, against its expected count");
  VH_END();
}
void h_pearson(void)
{
  double o[KM], e[KM], ref = 0, p; unsigned k;
  verbose = 0;
  for (k = 0; k < KM; k++) { o[k] = (double)(unsigned char)vin_range(0, 7); e[k] = 16 * PD[k]; ref += (o[k] - e[k]) * (o[k] - e[k]) / e[k]; }
  p = chisq_pearson(o, e, KM);
  CHECK(q_calls == 1 && p == 0.375 && q_a == (KM - 1) / 2.0, "one less degree of freedom than classes");
  CHECK(q_x == ref / 2, "every class contributes once, against its expected count");
  VH_END();
}
void h_binomial(void)
{
  double o[KM + 1], ref = 0, p; unsigned k, used = 0; double e;
  verbose = 0; pd_off = 0;
  for (k = 0; k <= KM; k++) { o[k] = (double)(unsigned char)vin_range(9, 12); e = 16 * PD[k]; if (o[k] > 10) { used++; ref += (o[k] - e) * (o[k] - e) / e; } }
  ASSUME(used >= 2);
  p = chisq_binomial(o, 0.75, KM, 16);
  CHECK(q_calls == 1 && p == 0.375 && q_a == (used - 1) / 2.0, "one less degree of freedom than classes used");
  CHECK(q_x == ref / 2, "every class with more than ten observations contributes once, against its expected count");
  VH_END();
}
void h_gtest(void)
{
  unsigned o[KM], k; double ref = 0, p, w, corr;
  verbose = 0;
  for (k = 0; k < KM; k++) { o[k] = (unsigned)vin_range(0, 7); w = o[k]; ref += 2 * (w * (w / 2 - 1)); }
  p = chisq_uint_uniform_gtest(o, 2 * KM, KM);
  corr = 1.0 + (KM + 1) / (6.0 * 2 * KM) + KM * KM / (6.0 * 2 * KM * 2 * KM);
  CHECK(q_calls == 1 && p == 0.375 && q_a == (KM - 1) / 2.0, "one less degree of freedom than classes");
  w = (ref < 0 ? -ref : ref) - 2 * corr * q_x;
  CHECK(w > -0.01 * (ref < 0 ? -ref : ref) - 0.01 && w < 0.01 * (ref < 0 ? -ref : ref) + 0.01, "the corrected G statistic of all classes is used");
  VH_END();
}
#endif
#ifdef U_KS
static unsigned s_calls;
static void vsort(double *d, size_t stride, size_t n)
{
  unsigned i, j; double t;
  CHECK(stride == 1 && n == NP && s_calls == 0, "all samples are sorted, once");
  s_calls++;
  for (i = 1; i < NP; i++) for (j = i; j > 0; j--) if (d[j - 1] > d[j]) { t = d[j]; d[j] = d[j - 1]; d[j - 1] = t; }
}
#define gsl_sort vsort
static double w_d; static unsigned w_calls;
#define NEAR(a, b) ((a) - (b) < 0.015 && (b) - (a) < 0.015)
VH_CONTRACT(double p_ks_new(int n, double d)
__CPROVER_requires(n == NP && NEAR(d, w_d)) __CPROVER_assigns(w_calls) __CPROVER_ensures(__CPROVER_return_value == 0.375 && w_calls == __CPROVER_old(w_calls) + 1);
double q_ks(double x)
__CPROVER_requires(NEAR(x, w_d)) __CPROVER_assigns(w_calls) __CPROVER_ensures(__CPROVER_return_value == 0.375 && w_calls == __CPROVER_old(w_calls) + 1);
double q_ks_kuiper(double x, int n)
__CPROVER_requires(n == NP && NEAR(x, w_d)) __CPROVER_assigns(w_calls) __CPROVER_ensures(__CPROVER_return_value == 0.375 && w_calls == __CPROVER_old(w_calls) + 1);)
#ifndef VH_NATIVE
#define sqrt(x) ((double)(NP == 2 ? 1.41421356 : NP == 3 ? 1.73205081 : 2.0))
#endif
#include "kstest.c"
void h_ks(void)
{
  double p[NP + 1], s[NP], d, dm = 0, vp = 0, vn = 0, r, sq; unsigned i, j; int n = (int)vin();
  s_calls = 0; w_calls = 0;
  verbose = 0;
#if VAR == 9      /* degenerate numbers of samples */
  ASSUME(n <= 1);
  p[0] = (double)(int)vin_range(0, 1024) / 1024; d = p[0];
  if (n < 1) { r = kstest(p, n); CHECK(r == -1.0, "no samples: no p-value"); }
  else { r = kstest(p, 1); CHECK(r == d, "a single sample is the p-value"); r = kstest_kuiper(p, 1); CHECK(r == d, "a single sample is the p-value"); }
#else
  for (i = 0; i <= NP; i++) { p[i] = (double)(int)vin_range(0, 8) / 8; if (i < NP) s[i] = p[i]; }
  r = p[NP];
  for (i = 1; i < NP; i++) for (j = i; j > 0; j--) if (s[j - 1] > s[j]) { d = s[j]; s[j] = s[j - 1]; s[j - 1] = d; }
  for (i = 0; i < NP; i++) {
    d = s[i] - (i + 1.0) / (NP + 1.0); if (d < 0) d = -d; if (d > dm) dm = d;
    d = s[i] - (double)i / NP; if (d > vp) vp = d; if (-d > vn) vn = -d;
  }
  sq = sqrt((double)NP);
#if VAR == 0
  ks_test = (uint)vin();
  w_d = dm;
#elif VAR == 1
  ks_test = 0;
  w_d = (sq + 0.12 + 0.11 / sq) * dm;
#elif VAR == 2
  w_d = (sq + 0.155 + 0.24 / sq) * (vp + vn);
#endif
  d = r;
#if VAR == 2
  r = kstest_kuiper(p, NP);
#else
  r = kstest(p, NP);
#endif
  CHECK(p[NP] == d, "nothing beyond the samples is touched");
#ifdef VH_NATIVE
  CHECK(NEAR(r, VAR == 0 ? p_ks_new(NP, dm) : VAR == 1 ? q_ks(w_d) : q_ks_kuiper(w_d, NP)) || r != r, "the p-value is that of the largest deviation of the sorted samples");
#else
  CHECK(w_calls == 1 && r == 0.375, "the p-value is that of the largest deviation of the sorted samples");
#endif
#endif
  VH_END();
}
#endif
#if defined(U_MAT) || defined(U_DIST)
#define gsl_sort(d, s, n) ((void)0)
#endif
#ifdef U_MAT
#include "kstest.c"
/* matrix product and power: small integers, exact */
void h_mpow(void)
{
  double A[MM * MM], V[MM * MM + 1], R[MM * MM], T[MM * MM]; int i, j, k, t, ev = 77;
  for (i = 0; i < MM * MM; i++) { A[i] = (double)(unsigned char)vin_range(0, MM == 3 ? 1 : 2); R[i] = A[i]; }
  V[MM * MM] = 0.5;
  for (t = 1; t < NPOW; t++) {
    for (i = 0; i < MM; i++) for (j = 0; j < MM; j++) { T[i * MM + j] = 0; for (k = 0; k < MM; k++) T[i * MM + j] += R[i * MM + k] * A[k * MM + j]; }
    for (i = 0; i < MM * MM; i++) R[i] = T[i];
  }
  mPower(A, 0, V, &ev, MM, NPOW);
  CHECK(ev == 0 && V[MM * MM] == 0.5, "no rescaling for moderate values");
  for (i = 0; i < MM * MM; i++) CHECK(V[i] == R[i], "the n-th power of the matrix");
  VH_END();
}
#endif
#ifdef U_DIST
/* Kolmogorov's distribution for 1, 2 and 3 samples in closed form, at d = k/64; series with a stand-in for exp() */
static double vpow(double b, double e) { double r = 1; int i, n = (int)e; CHECK(e == (double)n && n >= -300 && n <= 300, "integer powers"); for (i = 0; i < n; i++) r *= b; for (i = 0; i > n; i--) r /= b; return r; }
static double vexp(double a) { double y; int i; if (a < -30.0) return 0.0; y = 1.0 + a / 64.0; for (i = 0; i < 6; i++) y *= y; return y; }
static double vsqrt(double x) { double r = 1; unsigned i; for (i = 0; i < 40; i++) r = (r + x / r) / 2; return r; }
#define pow vpow
#define exp vexp
#define sqrt vsqrt
#include "kstest.c"
#undef pow
#undef exp
#undef sqrt
#define NEAR(a, b) ((a) - (b) < 1e-7 && (b) - (a) < 1e-7)
static double KD(int n, double d)
{
  if (n == 1) return 2 * d - 1;
  if (d >= 0.5 && n == 2) return 1 - 2 * (1 - d) * (1 - d);
  return 2 * (2 * d - 0.5) * (2 * d - 0.5);
}
/* large powers are kept within range by a power of ten carried separately */
void h_mscale(void)
{
  double A[4], V[4]; int ev = 0, n, i; double want;
  verbose = 0;
  for (n = 2; n <= 4; n++) {
    A[0] = 1e100; A[1] = 0; A[2] = 0; A[3] = 1e60;
    mPower(A, 7, V, &ev, 2, n);
    want = vpow(10.0, 100 * n + 7 * n - ev);
    CHECK(ev >= 7 * n && V[0] > want * (1 - 1e-9) && V[0] < want * (1 + 1e-9), "value times ten to the exponent is the power");
    if (n < 4) { want = vpow(10.0, 60 * n + 7 * n - ev); CHECK(V[3] > want * (1 - 1e-9) && V[3] < want * (1 + 1e-9), "value times ten to the exponent is the power"); }
    CHECK(V[0] < 1e200 && V[1] == 0 && V[2] == 0, "the value stays within range");
  }
  VH_END();
}
void h_dist(void)
{
  int k, n; double d, got;
  verbose = 0; ks_test = 0;
  for (k = 32; k < 64; k++) { d = k / 64.0; got = p_ks_new(1, d); CHECK(NEAR(got, 1 - KD(1, d)), "Kolmogorov distribution of one sample"); }
  for (k = 16; k < 64; k++) { d = k / 64.0; got = p_ks_new(2, d); CHECK(NEAR(got, 1 - KD(2, d)), "Kolmogorov distribution of two samples"); }
  for (k = 44; k < 64; k++) { d = k / 64.0; got = p_ks_new(3, d); CHECK(NEAR(got, 2 * (1 - d) * (1 - d) * (1 - d)), "Kolmogorov distribution of three samples"); }
  VH_END();
}
void h_series(void)
{
  int k, i; double x, q, p, e, s, sg, got;
  verbose = 0;
  for (k = 1; k < 4; k++) {
    x = k / 2.0 + 0.25; s = 0; sg = 1;
    for (i = 1; i < 100; i++) { s += sg * vexp(-2.0 * x * x * i * i); sg = -sg; }
    got = q_ks(x);
    CHECK(NEAR(got, 2 * s), "the asymptotic Kolmogorov series");
    q = 0; p = 0;
    for (i = 1; i < 12; i++) { e = vexp(-2.0 * i * i * x * x); q += (4.0 * i * i * x * x - 1) * e; p += i * i * (4.0 * i * i * x * x - 3) * e; }
    got = q_ks_kuiper(x, 16);
    CHECK(NEAR(got, 2 * q - 8 * x / (3 * 4.0) * p), "Kuiper's series");
  }
  for (k = 0; k < 2; k++) {
    int n = k ? 100 : 16; double d = k ? 0.25 : 0.75;
    ks_test = k;
    s = d * d * n;
    got = p_ks_new(n, d);
    CHECK(NEAR(got, 2.0 * vexp(-(2.000071 + .331 / (k ? 10 : 4) + 1.409 / n) * s)), "the far tail approximation");
  }
  VH_END();
}
#endif
