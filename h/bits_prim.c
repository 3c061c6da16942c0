/* P03: bit-window, mask, rotation and n-tuple primitives (bits.c, static_get_bits.c) */
#include "vh.h"
#include <dieharder/libdieharder.h>
#include "vh_cfg.h"
#define exit vh_exit
#define printf(...) (0)
#define fprintf(...) (0)
#define W 32u
#define MASKLO(n) ((n) >= 32u ? 0xFFFFFFFFu : ((1u << (n)) - 1u))

#define POST_UMASK(r, a, b) ((r) == ((0xFFFFFFFFu >> (a)) & (0xFFFFFFFFu << (31u - (b)))))
/* bits bstart..bstop (counted from the left) of input, moved so that bstart lands on boffset */
#define WIN_SEL(in, a, b) ((in) & ((0xFFFFFFFFu >> (a)) & (0xFFFFFFFFu << (31u - (b)))))
#define POST_WINDOW(r, in, a, b, o) ((r) == ((a) >= (o) ? (WIN_SEL(in, a, b) << ((a) - (o))) : (WIN_SEL(in, a, b) >> ((o) - (a)))))
#define ROTL(x, s) ((s) == 0 ? (x) : (((x) << (s)) | ((x) >> (32u - (s)))))

VH_CONTRACT(
unsigned int b_umask(unsigned int bstart, unsigned int bstop)
  __CPROVER_requires(bstop <= 31 && bstart <= bstop)
  __CPROVER_assigns()
  __CPROVER_ensures(POST_UMASK(__CPROVER_return_value, bstart, bstop));
unsigned int b_window(unsigned int input, unsigned int bstart, unsigned int bstop, unsigned int boffset)
  __CPROVER_requires(bstop <= 31 && bstart <= bstop && boffset <= 31)
  __CPROVER_assigns()
  __CPROVER_ensures(POST_WINDOW(__CPROVER_return_value, input, bstart, bstop, boffset));
unsigned int b_rotate_left(unsigned int input, unsigned int shift)
  __CPROVER_requires(shift >= 1 && shift <= 31)
  __CPROVER_assigns()
  __CPROVER_ensures(__CPROVER_return_value == ROTL(input, shift));
unsigned int b_rotate_right(unsigned int input, unsigned int shift)
  __CPROVER_requires(shift <= 31)
  __CPROVER_assigns()
  __CPROVER_ensures(__CPROVER_return_value == ROTL(input, (32u - shift) & 31u));
)

#include "bits.c"
#include "static_get_bits.c"
unsigned long gsl_rng_get(const gsl_rng *r) { return vin(); }

static void init(void) { vh_cfg(); verbose = 0; vh_exit_ok = 0; rmax_bits = 32; }

void h_umask(void)
{
  unsigned a, b, r;
  init();
  b = vin_range(0, 31); a = vin_range(0, b);
  r = b_umask(a, b);
  CHECK(POST_UMASK(r, a, b), "mask has exactly the bits bstart..bstop");
  VH_END();
}
void h_window(void)
{
  unsigned in, a, b, o, r;
  init();
  in = vin(); b = vin_range(0, 31); a = vin_range(0, b); o = vin_range(0, 31);
  r = b_window(in, a, b, o);
  CHECK(POST_WINDOW(r, in, a, b, o), "window is the selected bits moved to boffset");
  VH_END();
}
void h_rotl(void)
{
  unsigned in, s, r;
  init();
  in = vin(); s = vin_range(1, 31);
  r = b_rotate_left(in, s);
  CHECK(r == ROTL(in, s), "left rotation");
  VH_END();
}
void h_rotr(void)
{
  unsigned in, s, r;
  init();
  in = vin(); s = vin_range(0, 31);
  r = b_rotate_right(in, s);
  CHECK(r == ROTL(in, (32u - s) & 31u), "right rotation");
  VH_END();
}

static unsigned bitrev1(unsigned x, unsigned n) { return (x >> n) & 1u; }

/* get_bit_ntuple: bit j of the result is stream bit (boffset+j), where the
 * stream runs from the least significant bit of the last word to the left,
 * rmax_bits per word, wrapping around the string */
#ifndef BSMAX
#define BSMAX 4
#endif
void h_bit_ntuple(void)
{
  unsigned bslen, blen, boff, j, r, p, k, io, bs[BSMAX];
  init();
  rmax_bits = RM;
  bslen = vin_range(1, BSMAX);
  blen = vin_range(1, 32);
  boff = vin_range(0, BSMAX * RM - 1);
  ASSUME(boff / RM < bslen);
  for (k = 0; k < BSMAX; k++) bs[k] = (unsigned)vin() & MASKLO(RM);
  j = vin_range(0, 31);
  ASSUME(j < blen);
  r = get_bit_ntuple(bs, bslen, blen, boff);
  /* word holding stream bit boff+j */
  p = (boff + j) % (bslen * RM);
  io = bslen - 1 - p / RM;
  CHECK(((r >> j) & 1u) == bitrev1(bs[io], p % RM), "bit j of the n-tuple is bit boffset+j of the cyclic bit string");
  CHECK((r & ~MASKLO(blen)) == 0, "an n-tuple has at most blen bits");
  VH_END();
}

void h_ntuple_uint(void)
{
  unsigned s, n, o, r, j;
  init();
  rmax_bits = RM;
  s = (unsigned)vin() & MASKLO(rmax_bits);
  n = vin_range(1, 32);
  o = vin();
  j = vin_range(0, 31);
  ASSUME(j < n);
  r = get_bit_ntuple_from_uint(s, n, MASKLO(n), o);
  CHECK(((r >> j) & 1u) == bitrev1(s, (o % rmax_bits + j) % rmax_bits), "bit j of the n-tuple is bit boffset+j of the cyclic word");
  CHECK((r & ~MASKLO(n)) == 0, "an n-tuple has at most nbits bits");
  VH_END();
}
void h_ntuple_whole(void)
{
  unsigned s, n, o, r, j;
  init();
  s = vin();
  n = vin_range(1, 32);
  o = vin_range(0, 31);
  j = vin_range(0, 31);
  ASSUME(j < n);
  r = get_bit_ntuple_from_whole_uint(s, n, MASKLO(n), o);
  CHECK(((r >> j) & 1u) == bitrev1(s, (o + j) % 32), "bit j of the n-tuple is bit boffset+j of the cyclic 32-bit word");
  CHECK((r & ~MASKLO(n)) == 0, "an n-tuple has at most nbits bits");
  VH_END();
}
/* get_ntuple_cyclic: the ntuple bits starting offset bits from the left of
 * input[0] (cyclically), right-justified in output, rest of output zero */
#define GI 6
void h_ntuple_cyclic(void)
{
  unsigned in[GI], out[GI], nt, off, j, q, k, p, e;
  init();
  for (k = 0; k < GI; k++) in[k] = vin();
  for (k = 0; k < GI; k++) out[k] = vin();
  nt = vin_range(1, NTMAX);
  off = vin_range(0, GI * 32 - 1);
  get_ntuple_cyclic(in, GI, out, GI, nt, off);
  /* q counts output bits from the right */
  q = vin_range(0, GI * 32 - 1);
  e = 0;
  if (q < nt) {
    p = (off + nt - 1 - q) % (GI * 32);
    e = (in[p / 32] >> (31 - p % 32)) & 1u;
  }
  CHECK(((out[GI - 1 - q / 32] >> (q % 32)) & 1u) == e, "output is the cyclic window, right-justified and zero-extended");
  VH_END();
}
void h_get_bit(void)
{
  unsigned n, d[8], i, k;
  int r;
  init();
  rmax_bits = vin_range(1, 32);
  for (k = 0; k < 8; k++) d[k] = vin();
  n = vin_range(0, 8 * 32 - 1);
  ASSUME(n / rmax_bits < 8);
  i = n / rmax_bits;
  r = get_bit(d, n);
  CHECK(r == (int)((d[i] >> (rmax_bits - 1 - n % rmax_bits)) & 1u), "bit n counted from the left of the rmax_bits-wide words");
  VH_END();
}
void h_get_int_bit(void)
{
  unsigned i, n;
  int r;
  init();
  i = vin(); n = vin_range(0, 31);
  r = get_int_bit(i, n);
  CHECK(r == (int)((i >> n) & 1u), "bit n of the word");
  VH_END();
}
void h_cycle(void)
{
  unsigned x, y, n, m;
  init();
  x = vin(); n = vin_range(1, 32);
  y = x;
  cycle(&y, n);
  m = x & MASKLO(n);
  CHECK(y == (n == 1 ? m : ((m >> 1) | ((m & 1u) << (n - 1)))), "rotation of the low nbits by one");
  VH_END();
}
void h_bit2uint(void)
{
  char b[32];
  unsigned n, k, r, e = 0;
  init();
  n = vin_range(0, 32);
  for (k = 0; k < 32; k++) b[k] = '0' + vin_range(0, 1);
  r = bit2uint(b, n);
  for (k = 0; k < 32; k++) if (k < n) e = (e << 1) | (unsigned)(b[k] - '0');
  CHECK(r == e, "binary string read most significant bit first");
  VH_END();
}
