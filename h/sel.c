/* P17: selecting the generator under test (dieharder/choose_rng.c) */
#include "vh.h"
#include <dieharder/libdieharder.h>
#define fprintf(...) (0)
#define printf(...) (0)
#define exit vh_exit
/* ghost state */
static gsl_rng g_new, g_old;
static unsigned g_alloc, g_freed, g_reset, g_seeded, g_timed, g_listed, g_dumped;
static const gsl_rng_type *g_type;
static unsigned long g_seed, g_rand, g_max;
gsl_rng *gsl_rng_alloc(const gsl_rng_type *t)
{
  CHECK(!g_alloc, "one generator is created");
  g_alloc++; g_type = t; g_new.type = t;
  return &g_new;
}
void gsl_rng_free(gsl_rng *r) { CHECK(r == &g_old && !g_freed && !g_alloc, "only the previous generator is released"); g_freed++; }
void reset_bit_buffers(void) { g_reset++; }
void gsl_rng_set(const gsl_rng *r, unsigned long s)
{
  CHECK(r == &g_new && g_alloc, "only the new generator is seeded");
  g_seeded++; g_seed = s;
}
unsigned long gsl_rng_max(const gsl_rng *r) { CHECK(r == &g_new, "the width is that of the new generator"); return g_max; }
unsigned long gsl_rng_min(const gsl_rng *r) { return 0; }
const char *gsl_rng_name(const gsl_rng *r) { return r->type->name; }
void time_rng(void) { CHECK(g_alloc && rng == &g_new && !g_seeded, "timing does not disturb the seeded generator"); g_timed++; }
unsigned long random_seed(void) { return g_rand; }
void list_rngs(void) { g_listed++; vh_exit_ok = 1; }
void output_rnds(void) { CHECK(g_seeded && rng == &g_new, "numbers are dumped from the selected generator"); g_dumped++; vh_exit_ok = 1; }
void Exit(int c) { vh_exit(c); }
#include "choose_rng.c"
#include "vh_cfg.h"
#define NT 8
static const unsigned slot[NT] = { 0, 13, 14, 20, 201, 202, 207, 999 };
static const char *const tname[NT] = { "borosh13", "mt19937", "mt19937_1999", "", "file_input", "file_input_raw", "XOR", "last" };
static gsl_rng_type TY[NT];
static const char *const uname[] = { "borosh13", "mt19937", "mt19937_1999", "file_input", "file_input_raw", "XOR", "last", "mt1993", "mt19937_199", "nosuch", "file_input_raww", "MT19937" };
static const int uwant[] = { 0, 1, 2, 4, 5, 6, 7, -1, -1, -1, -1, -1 };
static int want;                 /* entry that must be selected, -1: none */
static void setup(void)
{
  unsigned i;
  vh_cfg(); vh_exit_ok = 0; verbose = 0;
  g_alloc = g_freed = g_reset = g_seeded = g_timed = g_listed = g_dumped = 0;
  for (i = 0; i < NT; i++) { TY[i].name = tname[i]; dh_rng_types[slot[i]] = &TY[i]; }
  g_old.type = &TY[1];
  rng = vin_range(0, 1) ? &g_old : 0;
  g_rand = vin(); Seed = vin(); seed = vin();
  g_max = (unsigned long)vin_range(1, UINT_MAX);
  fromfile = (int)vin_range(0, 1);
  tflag = (unsigned)vin();
  gvcount = 0;
#ifdef BYNAME
  gnumbs[0] = 13;
  strcpy(gnames[0], uname[BYNAME]);
  want = uwant[BYNAME];
#else
  gnumbs[0] = (unsigned)vin();
  gnames[0][0] = 0;
  want = -1;
  for (i = 0; i < NT; i++) if (slot[i] == gnumbs[0] && tname[i][0]) want = (int)i;
#endif
  if ((want == 4 || want == 5) && fromfile != 1) want = -1;
}
static void post(gsl_rng *old)
{
  unsigned bits, i;
  CHECK(g_alloc == 1 && rng == &g_new && g_type == &TY[want], "the generator selected by the user is the one that is used");
  CHECK(old ? g_freed == 1 && g_reset >= 1 : !g_freed, "a previous generator is released and the bits buffered from it are discarded");
  CHECK(g_seeded == 1 && g_seed == (Seed ? Seed : g_rand) && seed == g_seed, "the generator is seeded once, with the user's seed or else a random one, and that seed is recorded");
  CHECK(!(tflag & TRATE) || g_timed == 1, "the generator's speed is measured when it is to be shown");
  bits = 0;
  for (i = 0; i < 32; i++) if (g_max >> i) bits = i + 1;
  CHECK(random_max == g_max && rmax_bits == bits && rmax_mask == (bits == 32 ? 0xffffffffu : (1u << bits) - 1), "the recorded width, mask and maximum are those of the generator");
}
void h_select(void)
{
  gsl_rng *old; int r;
  setup();
  old = rng;
  r = select_rng((int)vin(), generator_name, (unsigned)Seed);
  if (want < 0) {
    CHECK(r == -1, "an unknown generator is refused");
    CHECK(!g_alloc && !g_freed && rng == old && !g_seeded, "a refused selection leaves the current generator alone");
  } else {
    CHECK(r == 0, "a known generator is accepted");
    post(old);
  }
#ifndef NOVAC
  if (want >= 0) VH_END();
#endif
}
void h_choose(void)
{
  gsl_rng *old;
  setup();
  old = rng;
  output_file = (int)vin_range(0, 1);
  choose_rng();
  CHECK(want >= 0 && !output_file, "the run does not go on without a valid generator, or after dumping numbers");
  post(old);
  CHECK(!g_listed && !g_dumped, "nothing else is done");
  VH_END();
}
