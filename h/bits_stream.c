/* P01, P02: the bit supply is the generator's output, bit for bit, in order
 * (get_rand_bits_uint of static_get_bits.c; get_uint_rand, get_rand_bits,
 * fill_uint_buffer, reset_bit_buffers of bits.c).
 *
 * RM is the width of the generator's outputs (rmax_bits). */
#include "vh.h"
#include <dieharder/libdieharder.h>
#include "vh_cfg.h"
#define exit vh_exit
#define printf(...) (0)
#define fprintf(...) (0)
#define MASKLO(n) ((n) >= 32u ? 0xFFFFFFFFu : ((1u << (n)) - 1u))
#define WIN_SEL(in, a, b) ((in) & ((0xFFFFFFFFu >> (a)) & (0xFFFFFFFFu << (31u - (b)))))
#define POST_WINDOW(r, in, a, b, o) ((r) == ((a) >= (o) ? (WIN_SEL(in, a, b) << ((a) - (o))) : (WIN_SEL(in, a, b) >> ((o) - (a)))))

#ifndef NOUT
#define NOUT 80
#endif
static unsigned OUT[NOUT];
static unsigned oc;            /* outputs drawn so far */
unsigned long gsl_rng_get(const gsl_rng *r)
{
  CHECK(oc < NOUT, "no more generator outputs are drawn than the request needs");
  if (oc >= NOUT) vh_stop();
  return OUT[oc++];
}
VH_CONTRACT(
unsigned int b_window(unsigned int input, unsigned int bstart, unsigned int bstop, unsigned int boffset)
  __CPROVER_requires(bstop <= 31 && bstart <= bstop && boffset <= 31)
  __CPROVER_assigns()
  __CPROVER_ensures(POST_WINDOW(__CPROVER_return_value, input, bstart, bstop, boffset));
)
#include "bits.c"
#ifdef HOISTED
#include "hoisted_static_get_bits.c"
#else
#include "static_get_bits.c"
#endif

static void init(unsigned n)
{
  unsigned k;
  vh_cfg(); verbose = 0; vh_exit_ok = 0; oc = 0;
  rmax_bits = RM;
  for (k = 0; k < n; k++) OUT[k] = (unsigned)vin() & MASKLO(RM);
}

/* ---- get_rand_bits_uint ------------------------------------------------
 * Specification: pending bits followed by the generator's outputs, most
 * significant bit first, form one bit string; a request for n bits removes
 * its first n bits.  A request for exactly RM bits returns the next output. */
static vh_u64 gq; static unsigned gqn, goc;   /* pending bits (gqn < 64) */
static unsigned spec_bits(unsigned n)
{
  unsigned r;
  if (n == RM) return OUT[goc++];
  while (gqn < n) { gq = (gq << RM) | OUT[goc++]; gqn += RM; }
  gqn -= n;
  r = (unsigned)(gq >> gqn) & MASKLO(n);
  gq &= (((vh_u64)1 << gqn) - 1);
  return r;
}
#ifndef NCALL
#define NCALL 3
#endif
void h_grbu_history(void)
{
  unsigned c, n, r, e, usemask;
  gq = 0; gqn = 0; goc = 0;
  init(NOUT);
  for (c = 0; c < NCALL; c++) {
    n = vin_range(1, 32);
    usemask = vin_range(0, 1);
    r = get_rand_bits_uint(n, usemask ? MASKLO(n) : 0, NULL);
    e = spec_bits(n);
    CHECK(r == e, "the request returns exactly the next bits of the generator's output stream");
    CHECK(oc == goc, "no generator output is skipped or drawn twice");
  }
  VH_END();
}
#ifdef HOISTED
/* inductive step: arbitrary buffer state satisfying the invariant */
void h_grbu_step(void)
{
  unsigned n, r, e, usemask;
  init(NOUT);
  bits_left_in_bit_buffer = vin_range(0, RM);
  bit_buffer = (unsigned)vin() & MASKLO(RM);
  gqn = bits_left_in_bit_buffer;
  gq = (vh_u64)bit_buffer & (((vh_u64)1 << gqn) - 1);
  goc = 0;
  n = vin_range(1, 32);
  usemask = vin_range(0, 1);
  r = get_rand_bits_uint(n, usemask ? MASKLO(n) : 0, NULL);
  e = spec_bits(n);
  CHECK(r == e, "the request returns exactly the next bits of the generator's output stream");
  CHECK(oc == goc, "no generator output is skipped or drawn twice");
  CHECK(bits_left_in_bit_buffer <= RM && bit_buffer <= MASKLO(RM), "buffer invariant preserved");
  CHECK(bits_left_in_bit_buffer == gqn &&
        ((vh_u64)bit_buffer & (((vh_u64)1 << gqn) - 1)) == gq, "the bits left over are the ones delivered next");
  VH_END();
}
#endif

/* ---- get_uint_rand -------------------------------------------------------
 * Specification: outputs concatenated least significant bit first. */
static unsigned spec_word(vh_u64 *q, unsigned *qn, unsigned *po)
{
  unsigned r;
  while (*qn < 32) { *q |= (vh_u64)OUT[(*po)++] << *qn; *qn += RM; }
  r = (unsigned)*q;
  *q >>= 32; *qn -= 32;
  return r;
}
void h_gur_history(void)
{
  unsigned c, r, e;
  init(NOUT);
  gq = 0; gqn = 0; goc = 0;
  reset_bit_buffers();
  for (c = 0; c < NCALL; c++) {
    r = get_uint_rand(NULL);
    e = spec_word(&gq, &gqn, &goc);
    CHECK(r == e, "successive words are the generator's output stream, bit for bit");
    CHECK(oc <= goc + 1, "at most one output is drawn ahead");
  }
  VH_END();
}
#ifdef STEP
/* inductive step: bleft bits of bits_rand[1] are still missing, the rest are pending */
void h_gur_step(void)
{
  unsigned r, e, have;
  init(NOUT);
  bleft = -1;
  r = get_uint_rand(NULL);          /* sets up the constants bu, bl */
  oc = 0; goc = 0;
  bleft = (RM == 32) ? 0 : vin_range(32 - RM, 32);
  have = 32 - bleft;                /* pending bits, at most RM */
  bits_rand[1] = (unsigned)vin() & MASKLO(have);
  bits_rand[0] = vin();
  gq = bits_rand[1]; gqn = have;
  r = get_uint_rand(NULL);
  e = spec_word(&gq, &gqn, &goc);
  CHECK(r == e, "the word is the next 32 bits of the output stream");
  CHECK(bleft >= 32 - RM && bleft <= (RM == 32 ? 0 : 32), "invariant: number of missing bits");
  /* when the word was complete beforehand (RM == 32) one output is held ahead */
  if (RM == 32) { gq = OUT[0]; gqn = 32; goc = 1; }
  CHECK(oc == goc, "no generator output is skipped or drawn twice");
  CHECK(32 - bleft == gqn && bits_rand[1] == (unsigned)gq, "the pending bits are the ones delivered next");
  VH_END();
}

/* ---- get_rand_bits: inductive step over its ring of BRBUF words ----------- */
#define NB 4
static unsigned W[NB], wc;
static unsigned pend(unsigned *buf, int bi, int br, unsigned k)
{ /* pending bit k: k-th bit to the left of the last one returned, cyclically */
  unsigned p = ((unsigned)br * 32u + (unsigned)bi + 2u * BRBUF * 32u - 1u - k) % (BRBUF * 32u);
  return (buf[p / 32] >> (31 - p % 32)) & 1u;
}
#endif
VH_CONTRACT(
void get_ntuple_cyclic(unsigned int *input, unsigned int ilen, unsigned int *output, unsigned int jlen,
                       unsigned int ntuple, unsigned int offset)
  __CPROVER_requires(ilen == 6 && jlen == 6 && ntuple >= 1 && ntuple <= 32 && offset < 192)
  __CPROVER_assigns(output[0], output[1], output[2], output[3], output[4], output[5])
  __CPROVER_ensures(output[0] == 0 && output[1] == 0 && output[2] == 0 && output[3] == 0 && output[4] == 0)
  __CPROVER_ensures(output[5] ==
     (unsigned)((((((vh_u64)input[(offset / 32) % 6]) << 32) | (vh_u64)input[(offset / 32 + 1) % 6])
        >> (64 - offset % 32 - ntuple)) & (((vh_u64)1 << ntuple) - 1)));
)
void h_grb_history(void)
{
  unsigned c, k, n, r, e, tot = 0;
  vh_u64 q = 0; unsigned qn = 0, wi = 0, words[NCALL + 1];
  gq = 0; gqn = 0; goc = 0;
  init(NOUT);
  reset_bit_buffers();
  for (k = 0; k <= NCALL; k++) words[k] = spec_word(&gq, &gqn, &goc);
  for (c = 0; c < NCALL; c++) {
    n = vin_range(1, 32);
#if defined(GW) && !defined(VH_NATIVE)
    ASSUME(n == GW); n = GW;       /* the native search uses arbitrary widths */
#endif
    get_rand_bits(&r, sizeof r, n, NULL);
    if (qn < n) { q |= (vh_u64)words[wi++] << qn; qn += 32; }
    e = (unsigned)q & MASKLO(n);
    q >>= n; qn -= n;
    CHECK(r == e, "the request returns exactly the next bits of the generator's output stream");
  }
  VH_END();
}
#ifdef STEP
void h_grb_step(void)
{
  unsigned old[BRBUF], n, k, r, e, fresh, first;
  int obr, obi;
  init(8);
  /* RM == 32 here: get_uint_rand then delivers OUT[] word by word, one held ahead */
  reset_bit_buffers();
  get_uint_rand(NULL);               /* OUT[0] returned, OUT[1] held: next words are OUT[1], OUT[2], ... */
  first = 1;
  for (k = 0; k < BRBUF; k++) { bits_randbuf[k] = vin(); old[k] = bits_randbuf[k]; }
  if (vin_range(0, 1)) { brindex = BRBUF; iclear = BRBUF - 1; bitindex = 0; }
  else { brindex = vin_range(0, BRBUF - 1); iclear = brindex; bitindex = vin_range(0, 31); }
  obr = brindex; obi = bitindex;
  n = vin_range(1, 32);
  get_rand_bits(&r, sizeof r, n, NULL);
  k = vin_range(0, 31);
  ASSUME(k < n);
  CHECK(((r >> k) & 1u) == pend(old, obi, obr, k), "bit k of the result is the k-th pending bit");
  CHECK((r & ~MASKLO(n)) == 0, "no bits beyond the request");
  CHECK(brindex >= 0 && brindex < BRBUF && iclear == brindex && bitindex >= 0 && bitindex < 32, "ring invariant preserved");
  /* pending bits afterwards: the old ones from n on, then fresh words */
  k = vin_range(0, BRBUF * 32 - 1);
  {
    unsigned oldcount = (obr == BRBUF) ? BRBUF * 32u : (BRBUF - 1) * 32u + (unsigned)obi;
    unsigned newcount = (BRBUF - 1) * 32u + (unsigned)bitindex;
    ASSUME(k < newcount);
    if (k + n < oldcount) e = pend(old, obi, obr, k + n);
    else { fresh = k + n - oldcount; e = (OUT[first + fresh / 32] >> (fresh % 32)) & 1u; }
    CHECK(pend(bits_randbuf, bitindex, brindex, k) == e, "pending bits keep their order; refills follow them");
  }
  VH_END();
}
#endif
void h_fill_buffer(void)
{
  unsigned d[4], n, k, b = 32 - RM;
  init(8);
  n = vin_range(0, 4);
  fill_uint_buffer(d, n);
  for (k = 0; k < 4; k++)
    if (k < n) CHECK(d[k] == (OUT[2 * k] << b) + (OUT[2 * k + 1] & MASKLO(b) & (b ? 0xFFFFFFFFu : 0u)), "each word is one output topped up from the next");
  CHECK(oc == 2 * n, "two outputs per word");
  VH_END();
}

/* reset_bit_buffers: bits buffered for one generator never reach the next one */
void h_reset(void)
{
  unsigned c, k, n, r, e, before;
  vh_u64 q = 0; unsigned qn = 0, wi = 0, words[NCALL + 1];
  gq = 0; gqn = 0;
  init(NOUT);
  reset_bit_buffers();
  n = vin_range(0, 2);
  for (k = 0; k < n; k++) get_rand_bits(&r, sizeof r, 24, NULL);
  if (vin_range(0, 1)) get_uint_rand(NULL);
  before = oc;
  reset_bit_buffers();
  goc = oc;
  for (k = 0; k <= NCALL; k++) words[k] = spec_word(&gq, &gqn, &goc);
  for (c = 0; c < NCALL; c++) {
    get_rand_bits(&r, sizeof r, 24, NULL);
    if (qn < 24) { q |= (vh_u64)words[wi++] << qn; qn += 32; }
    e = (unsigned)q & MASKLO(24);
    q >>= 24; qn -= 24;
    CHECK(r == e, "after a reset the bits are those of outputs drawn after it");
  }
  VH_END();
}
#ifdef SZ
/* requests that cannot be honoured deliver zero and draw nothing */
void h_grb_limits(void)
{
  unsigned r[4], n, sz, k;
  init(8);
  reset_bit_buffers();
  sz = SZ;
  n = vin();
  ASSUME(n == 0 || n > 128 || n > sz * 8);
  for (k = 0; k < 4; k++) r[k] = 0xA5A5A5A5u;
  get_rand_bits(r, sz, n, NULL);
  for (k = 0; k < 16; k++) CHECK(((unsigned char *)r)[k] == (k < sz ? 0 : 0xA5), "an impossible request yields zeros, within the buffer");
  CHECK(oc == 0, "an impossible request draws nothing");
  VH_END();
}
#endif
