/* P04..P08: built-in generators.  GEN selects the generator; its real source is included.
 * gsl's generator calls made while seeding are specified stubs: a component
 * generator delivers, after seeding, a fixed arbitrary sequence. */
#include "vh.h"
#include <dieharder/libdieharder.h>
#define printf(...) (0)
#define fprintf(...) (0)
#define vfprintf(...) (0)
#define exit vh_exit
#define NSTREAM 12
#ifndef NCOMP
#define NCOMP 1
#endif
static gsl_rng g_comp[NCOMP + 2];
static unsigned g_ncomp;                 /* component generators created */
static unsigned long g_seed[NCOMP + 2];  /* seed each one received */
static unsigned g_seeded[NCOMP + 2], g_drawn[NCOMP + 2];
static vh_u32 g_stream[NCOMP + 2][NSTREAM];
static gsl_rng_type g_types[NCOMP + 2];
static int idx(const gsl_rng *r) { unsigned i; for (i = 0; i < NCOMP + 2; i++) if (r == &g_comp[i]) return (int)i; CHECK(0, "only existing generators are used"); vh_stop(); return 0; }
gsl_rng *gsl_rng_alloc(const gsl_rng_type *t)
{
  CHECK(g_ncomp < NCOMP + 2, "no more component generators are created than needed");
  if (g_ncomp >= NCOMP + 2) vh_stop();
  g_comp[g_ncomp].type = t;
  return &g_comp[g_ncomp++];
}
void gsl_rng_set(const gsl_rng *r, unsigned long s) { int i = idx(r); g_seed[i] = s; g_seeded[i]++; g_drawn[i] = 0; }
unsigned long gsl_rng_get(const gsl_rng *r)
{
  int i = idx(r);
  CHECK(g_seeded[i] == 1, "a component is seeded exactly once before use");
  CHECK(g_drawn[i] < NSTREAM, "draws within the specified sequence");
  if (g_drawn[i] >= NSTREAM) vh_stop();
  return g_stream[i][g_drawn[i]++];
}
void gsl_rng_free(gsl_rng *r) { }
#ifdef UVAG
/* contract of the shared bit supply (P02): a reset discards what is buffered */
static int g_clean, g_bytes;
static unsigned char g_key[256];
void reset_bit_buffers(void) { g_clean = 1; }
void get_rand_bits(void *result, uint rsize, uint nbits, gsl_rng *r)
{
  CHECK(g_clean, "the key is not drawn from left-over bits");
  CHECK(r == &g_comp[0] && g_seeded[0] == 1 && nbits == 8 && rsize == 4, "the key is drawn byte by byte from the seed generator");
  CHECK(g_bytes < 256, "256 bytes at most are drawn");
  if (g_bytes >= 256) vh_stop();
  *(uint *)result = g_key[g_bytes++];
  g_clean = 2;
}
#endif
unsigned long gsl_rng_max(const gsl_rng *r) { return UINT_MAX; }
#ifdef DEVFILE
static FILE *vh_fopen(const char *n, const char *m) { CHECK(!strcmp(n, DEVFILE) && m[0] == 'r', "the announced device is read"); return (FILE *)g_comp; }
static vh_u64 g_devword; static unsigned g_devbytes;
static size_t vh_fread(void *p, size_t sz, size_t n, FILE *f)
{
  vh_u64 v = vin(); size_t i;
#ifdef DEVWORD
  v = DEVWORD;
#endif
  CHECK(f == (FILE *)g_comp, "the open device is read");
  g_devword = v; g_devbytes = (unsigned)(sz * n);
  for (i = 0; i < sz * n; i++) ((unsigned char *)p)[i] = (unsigned char)(v >> (8 * (i & 7)));
  return n;
}
#define fopen(a, b) vh_fopen(a, b)
#define fread(a, b, c, d) vh_fread(a, b, c, d)
#define fclose(f) (0)
#endif
#ifdef CIPHER
/* contract of the block cipher: an arbitrary function of key and block, recorded */
static unsigned g_enc; static vh_u32 g_block[16], g_prev[16];
static const void *g_key;
static void cipher(const void *key, const unsigned char *in, unsigned char *out)
{
  unsigned i;
  if (g_enc) {
    CHECK(key == g_key, "the cipher keeps its key");
    for (i = 0; i < BLKWORDS; i++) CHECK(((const vh_u32 *)in)[i] == g_block[i], "output feedback: each block is the encryption of the previous one");
  } else for (i = 0; i < BLKWORDS; i++) g_prev[i] = ((const vh_u32 *)in)[i];
  g_key = key;
  for (i = 0; i < BLKWORDS; i++) { g_block[i] = (vh_u32)vin(); ((vh_u32 *)out)[i] = g_block[i]; }
  g_enc++;
}
#if CIPHER == 1
#include <dieharder/rijndael-alg-fst.h>
static unsigned char g_userkey[16]; static int g_keysets;
int rijndaelKeySetupEnc(u32 rk[], const u8 k[], int bits)
{
  unsigned i;
  CHECK(bits == 128, "128-bit key");
  for (i = 0; i < 16; i++) g_userkey[i] = k[i];
  g_keysets++;
  return 10;
}
void rijndaelEncrypt(const u32 rk[], int Nr, const u8 pt[16], u8 ct[16]) { CHECK(Nr == 10, "AES-128 has 10 rounds"); cipher(rk, pt, ct); }
#else
#include <dieharder/skein.h>
void Threefish_512_Process_Blocks64(Threefish_512_Ctxt_t *ctx, const unsigned char *in, void *out, size_t n) { CHECK(n == 1, "one block at a time"); cipher(ctx, in, out); }
#endif
#endif
#ifdef RGEN
#define R_I2 2.328306437080797e-10
static double fixup(double x)
#ifdef __CPROVER__
  __CPROVER_ensures(__CPROVER_return_value == 0.5 * R_I2 || __CPROVER_return_value == 0.5 || __CPROVER_return_value == 1.0 - 0.5 * R_I2)
#endif
;
#endif
#define xstr(s) #s
#define str(s) xstr(s)
#include SRC
#undef long
#include "vh_cfg.h"

#ifdef STATE_T
typedef STATE_T state_t_;
#else
typedef struct { vh_u64 d[8]; } state_t_;
#endif
static state_t_ ST, ST2;
static void havoc_state(state_t_ *s)
{
#ifdef __CPROVER__
  state_t_ n; *s = n;                 /* arbitrary contents; not replayed */
#else
  unsigned i; for (i = 0; i < sizeof *s; i++) ((unsigned char *)s)[i] = (unsigned char)vin();
#endif
}
static void setup(void)
{
  unsigned i, j;
  vh_cfg(); verbose = 0; vh_exit_ok = 0;
  g_ncomp = 0;
  for (i = 0; i < NCOMP + 2; i++) { g_seeded[i] = g_drawn[i] = 0; for (j = 0; j < NSTREAM; j++) g_stream[i][j] = (vh_u32)vin(); }
  for (i = 0; i < NCOMP + 2; i++) dh_rng_types[i] = &g_types[i];
  dh_rng_types[14] = &g_types[0];
}
#ifdef RGEN
/* contract of the R generators' final step: strictly inside (0,1) for every finite value */
void h_fixup(void)
{
  double x, d;
  vh_u64 u = vin(); memcpy(&x, &u, 8);
  ASSUME(x == x);
  d = fixup(x);
  CHECK(d > 0.0 && d < 1.0, "values are kept strictly between 0 and 1");
  if (x >= 1.0 / 4294967296.0 && x <= 1.0 - 1.0 / 4294967296.0) CHECK(d == x, "values inside the range are not changed");
  VH_END();
}
#endif
#ifndef GT
#define GT (*(const gsl_rng_type **)0)
#endif
/* ---- ranges: any state (satisfying INV), one output */
#ifdef RANGE
void h_range(void)
{
  unsigned long v;
  setup();
  havoc_state(&ST);
  INV;
  v = GT->get(&ST);
#ifdef DEVFILE
  CHECK(g_devbytes == 4 && v == (vh_u32)g_devword, "an output is the next 32 bits of the device");
#endif
  CHECK(v >= GT->min && v <= GT->max, "integer outputs lie within the declared range");
  VH_END();
}
/* ---- the floating point output is the integer output scaled by the declared range */
void h_double(void)
{
  unsigned long v; double d;
  setup();
  havoc_state(&ST);
  INV;
  ST2 = ST;
  SAVE;
  v = GT->get(&ST);
  RESTORE;
  d = GT->get_double(&ST2);
  CHECK(d == (double)v / (double)UINT_MAX, "the floating point output is the integer output scaled to [0,1]");
  CHECK(GT->max == UINT_MAX && GT->min == 0, "the declared range is that of 32-bit words");
  VH_END();
}
#endif
/* ---- XOR */
#ifdef XORGEN
void h_xor(void)
{
  unsigned i, k, n; unsigned long v;
  vh_u32 x;
  setup();
  n = (unsigned)vin_range(2, NCOMP + 1);
  gvcount = n;
  gnumbs[0] = (unsigned)vin();
  for (i = 1; i < n; i++) gnumbs[i] = (unsigned)vin_range(0, NCOMP + 1);
  havoc_state(&ST);
  GT->set(&ST, vin());
  CHECK(g_ncomp == n && g_comp[0].type == &g_types[0], "one generator per selected component, and one for the seeds");
  for (i = 1; i < n; i++) CHECK(g_comp[i].type == &g_types[gnumbs[i]] && g_seeded[i] == 1 && g_seed[i] == g_stream[0][i - 1], "each component is seeded from the seed generator, each differently");
  for (k = 0; k < 3; k++) {
    v = GT->get(&ST);
    x = 0;
    for (i = 1; i < n; i++) x ^= g_stream[i][k];
    CHECK(v == x, "an output is the exclusive or of the next output of every component");
    for (i = 1; i < n; i++) CHECK(g_drawn[i] == k + 1, "every component advances by exactly one per output");
  }
  CHECK(GT->max == UINT_MAX && GT->min == 0, "the declared range is that of 32-bit words");
  VH_END();
}
#endif
/* ---- seeding determines the sequence: two runs from arbitrary earlier states */
#ifdef DETERM
void h_determ(void)
{
  unsigned i, e1, e2; vh_u64 s, s1, s2, a[NOUTS];
  setup();
  s = vin();
  ASSUME(g_stream[0][1]);     /* not all words of the seed generator are 0 */
  havoc_state(&ST);
  PRE;
  seed = vin();
  GT->set(&ST, s);
  s1 = g_seed[0];
  for (i = 0; i < NOUTS; i++) a[i] = GT->get(&ST);
  g_ncomp = 0; for (i = 0; i < NCOMP + 2; i++) g_seeded[i] = g_drawn[i] = 0;
  havoc_state(&ST2);
  vh_cfg();
  PRE;
  seed = vin();
  GT->set(&ST2, s);
  s2 = g_seed[0];
  CHECK(s1 == s2, "seeding is determined by the seed alone");
  for (i = 0; i < NOUTS; i++) CHECK(a[i] == GT->get(&ST2), "the same seed gives the same sequence, whatever happened before");
  VH_END();
}
#endif
#ifdef HIST
/* the same, on the public interface: fresh start against an arbitrary (bounded) earlier history */
void h_hist(void)
{
  unsigned i; vh_u64 a[NOUTS], s1 = HSEED, s2 = HSEED2; vh_u32 sg;
  setup();
  PRE;
  GT->set(&ST, s1);
  sg = g_seed[0];
  for (i = 0; i < NOUTS; i++) a[i] = GT->get(&ST);
  g_ncomp = 0; for (i = 0; i < NCOMP + 2; i++) g_seeded[i] = g_drawn[i] = 0;
  seed = vin();
  GT->set(&ST, s2);
  for (i = 0; i < NPRE; i++) GT->get(&ST);
  g_ncomp = 0; for (i = 0; i < NCOMP + 2; i++) g_seeded[i] = g_drawn[i] = 0;
  GT->set(&ST, s1);
  CHECK(g_seed[0] == sg, "the same seed reaches the generator's parts, whatever happened before");
  for (i = 0; i < NOUTS; i++) CHECK(a[i] == GT->get(&ST), "the same seed gives the same sequence, whatever happened before");
  VH_END();
}
#endif
#ifdef UVAG
void h_uvag(void)
{
  unsigned i; unsigned char v1[259]; unsigned long s;
  setup();
  for (i = 0; i < 256; i++) g_key[i] = (unsigned char)(i * 167 + 13);
  s = vin();
  for (i = 0; i < 2; i++) {
    unsigned k;
    for (k = 0; k < 259; k++) svec[k] = (unsigned char)vin();
    sindex = (unsigned char)vin(); rndint = (unsigned)vin();
    g_clean = 0; g_bytes = 0; g_ncomp = 0; g_seeded[0] = 0;
    GT->set(&ST, s);
    CHECK(g_seed[0] == (vh_u32)s, "the seed generator gets the seed");
    CHECK(g_bytes == 256 && g_clean == 1, "no bits of the seed generator are left behind");
    if (i == 0) for (k = 0; k < 259; k++) v1[k] = svec[k];
    else for (k = 0; k < 259; k++) CHECK(v1[k] == svec[k], "the same seed gives the same state, whatever happened before");
    CHECK(sindex == 0 && rndint == 0, "the same seed gives the same state, whatever happened before");
  }
  VH_END();
}
void h_uvag_get(void)
{
  unsigned k, r0; unsigned long v; unsigned char si; vh_u32 w; unsigned off;
  setup();
  for (k = 0; k < 259; k++) svec[k] = (unsigned char)vin();
  si = sindex = (unsigned char)vin(); r0 = rndint = (unsigned)vin();
  si++;
  off = svec[si];
  w = svec[off] | (vh_u32)svec[off + 1] << 8 | (vh_u32)svec[off + 2] << 16 | (vh_u32)svec[off + 3] << 24;
  v = GT->get(&ST);
  CHECK(v == (vh_u32)(r0 + w + r0), "the output follows the UVAG recurrence");
  CHECK(sindex == si && rndint == v, "the output follows the UVAG recurrence");
  VH_END();
}
#endif
/* ---- seeding leaves the rest of the program alone */
#ifdef FRAME
#ifndef FSEED
#define FSEED vin()
#endif
void h_frame(void)
{
  unsigned long sd, Sd; unsigned rb, rm; unsigned long rx;
  setup();
  ASSUME(g_stream[0][1]);
  sd = seed = vin(); Sd = Seed = vin(); rb = rmax_bits = (unsigned)vin_range(1, 32); rx = random_max = (unsigned)vin(); rm = rmax_mask = (unsigned)vin();
  havoc_state(&ST);
  GT->set(&ST, FSEED);
  CHECK(seed == sd && Seed == Sd, "seeding a generator does not change the program's seeds");
  CHECK(rmax_bits == rb && rmax_mask == rm && random_max == rx, "seeding a generator does not change the selected generator's width");
  VH_END();
}
#endif
/* ---- OFB */
#ifdef CIPHER
void h_ofb(void)
{
  unsigned k, w; unsigned long v, s;
  setup();
  g_enc = 0;
  s = vin();
  havoc_state(&ST);
  GT->set(&ST, s);
  CHECK(g_enc == 1, "seeding encrypts the initial block");
#if CIPHER == 1
  CHECK(g_keysets == 1, "the key is set up once");
  for (k = 0; k < BLKWORDS; k++) CHECK(g_prev[k] == 0, "the initial block is zero");
  for (k = 0; k < 16; k++) CHECK(g_userkey[k] == (unsigned char)(112 + k + (s >> ((5 * k) % 26))), "the key is derived from the seed");
#else
  CHECK(g_prev[0] == (vh_u32)s && g_prev[1] == (vh_u32)(s >> 32), "the initial block holds the seed");
  for (k = 2; k < BLKWORDS; k++) CHECK(g_prev[k] == 0, "the rest of the initial block is zero");
  for (k = 0; k < 64; k++) CHECK(((unsigned char *)ST.ctx.Key)[k] == 64 + k, "fixed key");
#endif
  for (k = 0; k < 2 * BLKWORDS + 2; k++) {
    w = k % BLKWORDS;
    v = GT->get(&ST);
    CHECK(g_enc == 1 + k / BLKWORDS, "a new block is made exactly when the previous one is used up");
    CHECK(v == g_block[w], "every word of every block is delivered once, in order");
  }
  VH_END();
}
/* induction step: any block, any position */
void h_ofb_step(void)
{
  unsigned k, p; unsigned long v;
  setup();
  havoc_state(&ST);
  for (k = 0; k < BLKWORDS; k++) g_block[k] = ((vh_u32 *)ST.block)[k];
  p = (unsigned)vin_range(0, BLKWORDS);
  ST.pos = (short)(4 * p);
  g_enc = 1; g_key = &ST;
  v = GT->get(&ST);
  if (p == BLKWORDS) CHECK(g_enc == 2 && v == g_block[0] && ST.pos == 4, "a used-up block is replaced by its encryption");
  else CHECK(g_enc == 1 && v == g_block[p] && ST.pos == (short)(4 * p + 4), "the next word of the block is delivered");
  for (k = 0; k < BLKWORDS; k++) CHECK(((vh_u32 *)ST.block)[k] == g_block[k], "the block itself is not changed by reading");
  VH_END();
}
#endif
/* ---- KISS */
#ifdef KISS
#define KA 4294584393ULL
static int kinv(void) { return ST.y != 0 && ST.c < KA && !(ST.z == 0 && ST.c == 0) && !(ST.z == 0xffffffffu && ST.c == KA - 1); }
void h_kiss_set(void)
{
  setup();
  havoc_state(&ST);
  ASSUME(g_stream[0][1] || g_stream[0][2] || g_stream[0][3]);   /* the seed generator does not deliver only zeros */
  GT->set(&ST, vin());
  CHECK(kinv(), "seeding leaves none of the components in a degenerate state");
  VH_END();
}
void h_kiss_get(void)
{
  vh_u32 x, y, z, c; unsigned long v; unsigned long long t;
  setup();
  havoc_state(&ST);
  x = ST.x; y = ST.y; z = ST.z; c = ST.c;
  ASSUME(kinv());
  v = GT->get(&ST);
  x = x * 314527869u + 1234567u;
  y ^= y << 5; y ^= y >> 7; y ^= y << 22;
  t = KA * z + c;
  CHECK(ST.x == x && ST.y == y && ST.z == (vh_u32)t && ST.c == (vh_u32)(t >> 32), "the three component recurrences are those of KISS");
  CHECK(v == (vh_u32)(x + y + (vh_u32)t), "the output is the sum of the components modulo 2^32");
#ifdef INVSTEP
  CHECK(kinv(), "no component ever degenerates");
#endif
  VH_END();
}
#endif
#ifdef SKISS
void h_skiss_get(void)
{
  vh_u32 x, s, q; unsigned long v; unsigned i;
  setup();
  havoc_state(&ST);
  i = ST.indx;
  ASSUME(i < SUPERKISS_QMAX && ST.xs != 0);
  x = ST.xcng; s = ST.xs; q = ST.Q[i];
  v = GT->get(&ST);
  x = x * 69069u + 123u;
  s ^= s << 13; s ^= s >> 17; s ^= s >> 5;
  CHECK(ST.xcng == x && ST.xs == s && ST.indx == i + 1, "the component recurrences are those of SuperKISS");
  CHECK(v == (vh_u32)(q + x + s), "the output is the sum of the components modulo 2^32");
  CHECK(ST.xs != 0, "the shift register never degenerates");
  VH_END();
}
/* the whole table is renewed by the multiply-with-carry recurrence when it is used up */
void h_skiss_refill(void)
{
  vh_u32 Q[SUPERKISS_QMAX], c; unsigned long v; unsigned k; unsigned long long t;
  setup();
  havoc_state(&ST);
  ST.indx = SUPERKISS_QMAX;
  for (k = 0; k < SUPERKISS_QMAX; k++) Q[k] = ST.Q[k];
  c = ST.carry;
  v = GT->get(&ST);
  for (k = 0; k < SUPERKISS_QMAX; k++) { t = 7010176ULL * Q[k] + c; c = (vh_u32)(t >> 32); CHECK(ST.Q[k] == (vh_u32)~t, "multiply-with-carry recurrence"); }
  CHECK(ST.carry == c && ST.indx == 1 && v == (vh_u32)(ST.Q[0] + ST.xcng + ST.xs), "the renewed table is used from its start");
  VH_END();
}
void h_skiss_set(void)
{
  unsigned k;
  setup();
  havoc_state(&ST);
  GT->set(&ST, vin());
  for (k = 0; k < SUPERKISS_QMAX; k++) CHECK(ST.Q[k] == g_stream[0][k], "the table is filled from the seed generator");
  CHECK(ST.indx == SUPERKISS_QMAX && ST.xs != 0, "seeding leaves a valid state");
  VH_END();
}
#endif
