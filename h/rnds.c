/* P12: dumping random numbers (dieharder/output_rnds.c) */
#include "vh.h"
#define EVMAX 96
#include "vh_ev.h"
#include <dieharder/libdieharder.h>
/* one specified output stream; everything written is compared with the specification */
static char g_fobj[8];
static char g_so[8], g_se[8];
#undef stdout
#undef stderr
#define stdout ((FILE *)g_so)
#define stderr ((FILE *)g_se)
static FILE *g_want;                    /* where output must go */
static unsigned g_seeded, g_opens, g_closed, g_openfail;
static unsigned long g_seed, g_rand;
static vh_u64 g_drawn, g_written;       /* generator outputs taken, 32-bit words written */
static vh_u32 g_last;
static double g_lastd;
static int g_err;                        /* something was said on standard error */
#ifndef COUNT
#define COUNT 1
#endif
#ifndef FMT
#define FMT 0
#endif
#ifdef PROBE
/* a fixed native run with more than 2^32 values, counting draws only */
static inline vh_u32 probe_draw(void)
{
  if (__builtin_expect(++g_drawn > tsamples, 0)) CHECK(0, "exactly the requested number of values is written (2^32 + 3 values requested)");
  return 0;
}
#define gsl_rng_get(r) (probe_draw())
#define gsl_rng_uniform(r) ((double)probe_draw())
#define gsl_rng_set(r, s) ((void)(s))
#define gsl_rng_name(r) "gname"
#define random_seed() (g_rand)
#define fprintf(f, ...) (0)
#define printf(...) (0)
#define fputs(s, f) (0)
#define fwrite(a, b, c, f) (c)
#define fopen(a, b) ((FILE *)g_fobj)
#define fclose(f) (0)
#define fflush(f) (0)
#include "output_rnds.c"
void h_probe(void)
{
  verbose = 0; Seed = 5; strcpy(filename, "-"); output_format = FMT; tsamples = 0x100000003ul;
  output_rnds();
  CHECK(g_drawn == tsamples, "exactly the requested number of values is written (2^32 + 3 values requested)");
}
#else
#ifdef LIGHT
#define vh_out(...) (0)
#endif
#define fprintf(f, ...) ((f) == stderr ? (g_err = 1) : (vh_dst(f), vh_out(__VA_ARGS__)))
#define printf(...) (vh_dst(stdout), vh_out(__VA_ARGS__))
#define fputs(s, f) ((f) == stderr ? (g_err = 1) : (vh_dst(f), vh_out("%s", s)))
#define fopen(a, b) vh_fopen(a, b)
#define fclose(f) vh_fclose(f)
#define fflush(f) (0)
#define fwrite(a, b, c, f) vh_fwrite(a, b, c, f)
#define exit vh_exit
static void vh_dst(FILE *f)
{
  CHECK(f == g_want && !g_closed, "output goes to the requested file, or to standard output if none is named");
  CHECK(FMT != 0, "nothing but the words themselves is written in binary mode");
}
static FILE *vh_fopen(const char *n, const char *m)
{
  CHECK(n == filename && m[0] == 'w' && g_want != stdout && !g_opens, "the named file is opened once, for writing");
  if (g_openfail) { vh_exit_ok = 1; return NULL; }
  g_opens++;
  return (FILE *)g_fobj;
}
static int vh_fclose(FILE *f) { CHECK(f == g_want && !g_closed, "the output file is closed once"); g_closed++; return 0; }
static size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
  vh_u32 w;
  CHECK(f == g_want && !g_closed && FMT == 0, "output goes to the requested file, or to standard output if none is named");
  CHECK(sz * n == 4, "each value is written as one 32-bit word");
  memcpy(&w, p, 4);
  CHECK(g_written + 1 == g_drawn && w == g_last, "each generator output is written once, in order");
  g_written++;
#ifdef PUMP
  if (g_written == PUMP) vh_stop();
#endif
  return n;
}
#ifdef HDRONLY
static void hdr_stop(void) { CHECK(ev_same(), "the output starts with the documented header, for any count"); vh_stop(); }
#endif
const char *gsl_rng_name(const gsl_rng *r) { return "gname"; }
void gsl_rng_set(const gsl_rng *r, unsigned long s)
{
  CHECK(r == rng && !g_seeded && !g_drawn, "the selected generator is seeded once, before its first output");
  g_seeded++; g_seed = s;
}
unsigned long gsl_rng_get(const gsl_rng *r)
{
  CHECK(r == rng && g_seeded && FMT != 2, "integer outputs of the seeded generator are used");
  CHECK(g_drawn == g_written, "no output is skipped");
  g_drawn++;
  g_last = (vh_u32)vin();
#ifdef HDRONLY
  hdr_stop();
#endif
#if FMT == 1
#ifndef LIGHT
  ev_put(&ev_spec, EV_NUM, g_last, 0); ev_ch(&ev_spec, '\n');
#endif
  g_written++;
#endif
  return g_last;
}
static double draw_double(void)
{
#ifdef HDRONLY
  hdr_stop();
#endif
  g_drawn++; g_written++;
  g_lastd = (double)vin_range(0, 4095) / 4096.0;
#ifndef LIGHT
  ev_dbl(&ev_spec, g_lastd, 10); ev_ch(&ev_spec, '\n');
#endif
  return g_lastd;
}
double gsl_rng_uniform(const gsl_rng *r)
{
  CHECK(r == rng && g_seeded && FMT == 2, "floating point outputs of the seeded generator are used");
  return draw_double();
}
double gsl_rng_uniform_pos(const gsl_rng *r) { CHECK(0, "the generator's uniform output is used as it is"); return draw_double(); }
unsigned long random_seed(void) { return g_rand; }
#include "output_rnds.c"
#include "vh_cfg.h"
static gsl_rng R;
static void setup(void)
{
  unsigned nm = (unsigned)vin_range(0, 2);
  vh_cfg(); vh_exit_ok = 0; verbose = 0; rng = &R; g_err = 0;
  g_seeded = g_opens = g_closed = 0; g_drawn = g_written = 0;
  g_rand = (unsigned long)vin(); Seed = vin(); seed = vin();
  strcpy(filename, nm == 0 ? "" : nm == 1 ? "-" : "out.dat");
  g_want = nm == 2 ? (FILE *)g_fobj : stdout;
  g_openfail = (unsigned)vin_range(0, 1);
  output_format = FMT;
  ev_init(); ev_pick();
}
static void spec_header(unsigned long sd)
{
  ev_str(&ev_spec, "#==================================================================\n# generator gname seed = ");
  ev_put(&ev_spec, EV_NUM, sd, 0);
  ev_str(&ev_spec, "\n#==================================================================\n");
  ev_str(&ev_spec, FMT == 1 ? "type: d\ncount: " : "type: f\ncount: ");
  ev_put(&ev_spec, EV_NUM, tsamples, 0);
  ev_str(&ev_spec, "\nnumbit: 32\n");
}
static void post(void)
{
  CHECK(g_seeded == 1 && g_seed == (Seed ? Seed : g_rand) && seed == g_seed, "the generator is seeded with the user's seed, or with a random one if none was given");
  CHECK(g_drawn == tsamples && g_written == tsamples, "exactly the requested number of values is written");
  CHECK(g_closed == 1, "the output is closed");
}
/* text formats, and binary with the given count */
void h_dump(void)
{
  setup();
  tsamples = COUNT;
  if (FMT != 0) spec_header(Seed ? Seed : g_rand);
  output_rnds();
  post();
  if (FMT != 0) CHECK(ev_same(), "the output is the documented header followed by the values in order");
  VH_END();
}
#ifdef HDRONLY
/* the header, for any count; the run stops at the first value */
void h_header(void)
{
  setup();
  tsamples = (unsigned long)vin();
  ASSUME(tsamples > 0);
  spec_header(Seed ? Seed : g_rand);
  output_rnds();
  CHECK(0, "values follow the header");
}
#endif
/* binary, any number of values (loop contract) */
void h_dump_any(void)
{
  setup();
  tsamples = (unsigned long)vin();
  ASSUME(tsamples > 0);
  output_rnds();
  post();
  VH_END();
}
/* binary without a count: values are written until the reader goes away */
void h_pump(void)
{
  setup();
  tsamples = 0;
  output_rnds();
  CHECK(0, "without a count, output does not end by itself");
}
#endif
