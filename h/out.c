/* P15, P16: verdict and result table (dieharder/output.c) */
#include "vh.h"
#include "vh_ev.h"
extern char table_separator;
#define fprintf(f, ...) vh_out(__VA_ARGS__)
#define printf(...) vh_out(__VA_ARGS__)
#define fputs(s, f) ev_str(&ev_real, s)
static int vh_putc(int c)
{
  if ((char)c == table_separator) ev_put(&ev_real, EV_CH, (unsigned char)c, 0); else ev_ch(&ev_real, (char)c);
  return 0;
}
#define putchar(c) vh_putc(c)
#define fputc(c, f) vh_putc(c)
#define putc(c, f) vh_putc(c)
#define puts(s) (ev_str(&ev_real, s), ev_ch(&ev_real, '\n'))
#define fflush(f) (0)
#define exit vh_exit
#include "output.c"
#include "vh_cfg.h"
#undef fflush
void dh_header(void) { ev_str(&ev_real, "H"); }
const char *gsl_rng_name(const gsl_rng *r) { return "gen"; }
off_t file_input_get_rtot(gsl_rng *r) { return 0; }
uint file_input_get_rewind_cnt(gsl_rng *r) { return 0; }

#define NK 2
static Test T[NK], *TP[NK];
static Dtest D;
static double pv[NK][3];
static char lab[80];
static void field(int on, int *any)
{
  if (on) { if (*any) ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); *any = 1; }
}
static void setup(void)
{
  unsigned i, k;
  ev_pick(); ev_init();
  vh_cfg(); vh_exit_ok = 0; verbose = 0;
  D.name = "n"; D.sname = "st"; D.description = "d"; D.nkps = vin_range(1, NK);
  for (i = 0; i < NK; i++) {
    TP[i] = &T[i];
    T[i].ntuple = (unsigned)vin() & 0x7fffffffu; T[i].tsamples = (unsigned)vin(); T[i].psamples = (unsigned)vin_range(0, 3);
    T[i].ks_pvalue = vin_double(); T[i].pvalues = pv[i]; T[i].pvlabel = lab;
    for (k = 0; k < 3; k++) pv[i][k] = vin_double();
  }
  T[1].tsamples = T[0].tsamples; T[1].psamples = T[0].psamples;
  tflag = (unsigned)vin_range(0, 262143);
  table_separator = (char)vin();
  dtest_num = (int)vin_range(0, 999);
  seed = vin(); strategy = (double)vin_range(0, 1);
  Xfail = vin_double(); Xweak = vin_double();
  fromfile = 0;
}
static const char *verdict(double p)
{
  if (p < Xfail || p > 1.0 - Xfail) return "FAILED";
  if (p < Xweak || p > 1.0 - Xweak) return "WEAK";
  return "PASSED";
}
static void spec_row(unsigned i)
{
  int any = 0;
  if (tflag & TPREFIX) { ev_str(&ev_spec, "2"); any = 1; }
  field(tflag & TTEST_NAME, &any); if (tflag & TTEST_NAME) ev_str(&ev_spec, "st");
  field(tflag & TNUM, &any); if (tflag & TNUM) ev_put(&ev_spec, EV_NUM, (vh_u64)dtest_num, 0);
  field(tflag & TNTUPLE, &any); if (tflag & TNTUPLE) ev_put(&ev_spec, EV_NUM, T[i].ntuple, 0);
  field(tflag & TTSAMPLES, &any); if (tflag & TTSAMPLES) ev_put(&ev_spec, EV_NUM, T[i].tsamples, 0);
  field(tflag & TPSAMPLES, &any); if (tflag & TPSAMPLES) ev_put(&ev_spec, EV_NUM, T[i].psamples, 0);
  field(tflag & TPVALUES, &any); if (tflag & TPVALUES) ev_dbl(&ev_spec, T[i].ks_pvalue, 8);
  field(tflag & TASSESSMENT, &any); if (tflag & TASSESSMENT) ev_str(&ev_spec, verdict(T[i].ks_pvalue));
  field((tflag & TSEED) && strategy, &any); if ((tflag & TSEED) && strategy) ev_put(&ev_spec, EV_NUM, seed, 0);
}
static const unsigned FB[9] = { TPREFIX, TTEST_NAME, TNUM, TNTUPLE, TTSAMPLES, TPSAMPLES, TPVALUES, TASSESSMENT, TSEED };
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 512
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef STRAT
#define STRAT 0
#endif
static unsigned mk(unsigned t) { unsigned b, r = BASE; for (b = 0; b < 9; b++) if (t & (1u << b)) r |= FB[b]; return r; }
static void pre_p(void)
{
  unsigned i;
  ASSUME(Xfail >= 0.0 && Xfail <= Xweak && Xweak <= 0.5);
  for (i = 0; i < NK; i++) ASSUME(T[i].ks_pvalue >= 0.0 && T[i].ks_pvalue <= 1.0);
}
void h_verdict(void)
{
  setup(); pre_p();
  tflag = TASSESSMENT;
#ifdef TIGHT
  tflag |= TNO_WHITE;
#endif
  D.nkps = 1;
  output_table_line(&D, TP);
  ev_str(&ev_spec, verdict(T[0].ks_pvalue));
  ev_str(&ev_spec, "\n");
  CHECK(ev_same(), "the printed assessment is FAILED, WEAK or PASSED exactly as the thresholds say");
  VH_END();
}
void h_row(void)
{
  unsigned i, t;
  setup(); pre_p();
  D.nkps = NKP; Xfail = 0.000001; Xweak = 0.005;
  strategy = STRAT;
  for (t = LO; t < HI; t++) {
    ev_init();
    tflag = mk(t);
    output_table_line(&D, TP);
    for (i = 0; i < D.nkps; i++) { spec_row(i); ev_str(&ev_spec, "\n"); }
    CHECK(ev_same(), "one row per statistic with exactly the selected fields, in order, separated by the separator");
    CHECK(!(tflag & TNO_WHITE) || !ev_padded, "no padding when white space is switched off");
  }
  VH_END();
}
static const char *bar1 = "#=============================================================================#\n";
/* line header: the same fields, in the same order, as the rows */
void h_header(void)
{
  int any;
  unsigned t;
  setup();
  strategy = STRAT;
  for (t = LO; t < HI; t++) {
  ev_init();
  any = 0;
  tflag = mk(t);
  output_table_line_header();
  if (tflag & THEADER) ev_str(&ev_spec, bar1);
  if (tflag & TPREFIX) { ev_str(&ev_spec, "0"); any = 1; }
  field(tflag & TTEST_NAME, &any); if (tflag & TTEST_NAME) ev_str(&ev_spec, "test_name");
  field(tflag & TNUM, &any); if (tflag & TNUM) ev_str(&ev_spec, "num");
  field(tflag & TNTUPLE, &any); if (tflag & TNTUPLE) ev_str(&ev_spec, "ntup");
  field(tflag & TTSAMPLES, &any); if (tflag & TTSAMPLES) ev_str(&ev_spec, "tsamples");
  field(tflag & TPSAMPLES, &any); if (tflag & TPSAMPLES) ev_str(&ev_spec, "psamples");
  field(tflag & TPVALUES, &any); if (tflag & TPVALUES) ev_str(&ev_spec, "p-value");
  field(tflag & TASSESSMENT, &any); if (tflag & TASSESSMENT) ev_str(&ev_spec, "Assessment");
  field((tflag & TSEED) && strategy, &any); if ((tflag & TSEED) && strategy) ev_str(&ev_spec, "Seed");
  ev_str(&ev_spec, "\n");
  if (tflag & THEADER) ev_str(&ev_spec, bar1);
  CHECK(ev_same(), "the header names the selected fields in the order of the rows");
  }
  VH_END();
}
/* -D psample_values: every individual p-value is listed once, in order */
void h_psamples(void)
{
  unsigned k;
  setup(); pre_p();
  D.nkps = 1;
  tflag = TPSAMPLE_VALS | TPVALUES;
  output_table_line(&D, TP);
  ev_dbl(&ev_spec, T[0].ks_pvalue, 8);
  ev_str(&ev_spec, "\n"); ev_str(&ev_spec, bar1); ev_str(&ev_spec, "#                          Values of test p-values                            #\n"); ev_str(&ev_spec, bar1);
  for (k = 0; k < T[0].psamples; k++) {
    ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0);
    ev_dbl(&ev_spec, pv[0][k], 8);
    ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0);
    ev_str(&ev_spec, "\n");
  }
  ev_str(&ev_spec, bar1); ev_str(&ev_spec, "\n");
  CHECK(ev_same(), "every individual p-value is listed once and in order");
  VH_END();
}
/* generator line: names, number, file, rate, seed as selected; title and values agree in number */
void h_rnginfo(void)
{
  unsigned t;
  setup();
  generator = (int)vin_range(0, 999); fromfile = (int)vin_range(0, 1);
  rng_rands_per_second = vin_double();
  strcpy(filename, "f");
  for (t = 0; t < 64; t++) {
  ev_init();
  tflag = BASE | (t & 1 ? TLINE_HEADER : 0) | (t & 2 ? TPREFIX : 0) | (t & 4 ? TNUM : 0) | (t & 8 ? TRATE : 0) | (t & 16 ? TSEED : 0);
  strategy = STRAT;
  fromfile = (t & 32) != 0;
  output_rng_info();
  if (tflag & TLINE_HEADER) {
    if (tflag & TPREFIX) { ev_str(&ev_spec, "0"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
    ev_str(&ev_spec, "rng_name"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0);
    if (tflag & TNUM) { ev_str(&ev_spec, "num"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
    if (fromfile) { ev_str(&ev_spec, "filename"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
    if (tflag & TRATE) { ev_str(&ev_spec, "rands/second"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
    if ((tflag & TSEED) && strategy == 0 && !fromfile) { ev_str(&ev_spec, "Seed"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
    ev_str(&ev_spec, "\n");
  }
  if (tflag & TPREFIX) { ev_str(&ev_spec, "1"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
  ev_str(&ev_spec, "gen"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0);
  if (tflag & TNUM) { ev_put(&ev_spec, EV_NUM, (vh_u64)generator, 0); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
  if (fromfile) { ev_str(&ev_spec, "f"); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
  if (tflag & TRATE) { ev_dbl(&ev_spec, rng_rands_per_second, 2); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
  if ((tflag & TSEED) && strategy == 0 && !fromfile) { ev_put(&ev_spec, EV_NUM, seed, 0); ev_put(&ev_spec, EV_CH, (unsigned char)table_separator, 0); }
  ev_str(&ev_spec, "\n");
  CHECK(ev_same(), "the generator line has exactly the selected fields and values");
  }
  VH_END();
}
