/* P09, P10, P11: generators that read files or standard input
 * (libdieharder/rng_file_input_raw.c, rng_file_input.c, rng_stdin_input_raw.c)
 * The C library's file functions are replaced by a specified file: a byte
 * position, a size, and contents that are arbitrary words. */
#include "vh.h"
#include <dieharder/libdieharder.h>
#include "vh_cfg.h"
#define S S_
/* line buffers of 1024 bytes are reduced to 64; no line of the specified file is longer */
#undef K
#define K 64
#define VFP ((FILE *)g_fobj)
static char g_fobj[8];
static int g_handles, g_opens, g_isreg, g_isdir, g_stat_fail, g_open_fail;
static vh_u64 g_pos, g_size;        /* bytes (raw) */
static unsigned g_word, g_reads;    /* last word read, words read */
static vh_u64 g_readpos;
#ifdef NW
static unsigned W[NW];
#endif
static FILE *vh_fopen(const char *n, const char *m)
{
  CHECK(n == filename && m[0] == 'r', "the user's file is opened for reading");
  if (g_open_fail) { vh_exit_ok = 1; return NULL; }
  g_handles++; g_opens++; g_pos = 0;
  return VFP;
}
static int vh_fclose(FILE *f) { CHECK(f == VFP && g_handles > 0, "only the open file is closed"); g_handles--; return 0; }
static void vh_rewind(FILE *f) { CHECK(f == VFP && g_handles > 0, "only the open file is rewound"); g_pos = 0; }
static int vh_fseek(FILE *f, long o, int w)
{
  CHECK(f == VFP && g_handles > 0, "only the open file is repositioned");
  g_pos = w == SEEK_SET ? (vh_u64)o : w == SEEK_CUR ? g_pos + o : g_size + o;
  return 0;
}
static int vh_stat(const char *n, struct stat *b)
{
  CHECK(n == filename, "the user's file is examined");
  if (g_stat_fail) { errno = ENOENT; return -1; }
  b->st_size = (off_t)g_size;
  b->st_mode = g_isreg ? S_IFREG | 0644 : g_isdir ? S_IFDIR | 0755 : S_IFIFO | 0644;
  return 0;
}
static int vh_eof, vh_err;
static size_t vh_fread(void *p, size_t sz, size_t n, FILE *f)
{
#ifdef V_STDIN
  CHECK(f == stdin, "standard input is read");
#else
  CHECK(f == VFP && g_handles > 0, "only the open file is read");
#endif
  CHECK(vh_exit_ok || sz * n == 4, "one 32-bit word is read at a time");
  if (vh_eof || g_pos + 4 > g_size) {
    /* no complete word is left: the items that are complete are counted, as fread does */
    size_t left = vh_eof || g_pos >= g_size ? 0 : (size_t)(g_size - g_pos);
    if (!g_isreg) vh_exit_ok = 1;
    if (left > sz * n) left = sz * n;
    g_pos = g_size;
    return sz == 4 ? 0 : sz == 2 ? left / 2 : left;
  }
#ifdef NW
  g_word = W[g_pos / 4];
#else
#ifdef DW
  g_word = DW;
#else
  g_word = (unsigned)vin();
#endif
#endif
  *(unsigned *)p = g_word;
  g_readpos = g_pos;
  g_pos += 4; g_reads++;
  return n;
}
#define fopen(a, b) vh_fopen(a, b)
#define fclose(a) vh_fclose(a)
#define rewind(a) vh_rewind(a)
#define fseek(a, b, c) vh_fseek(a, b, c)
#define fseeko(a, b, c) vh_fseek(a, b, c)
#define fread(a, b, c, d) vh_fread(a, b, c, d)
#define feof(f) (vh_eof)
#define ferror(f) (!vh_eof)
#define stat(a, b) vh_stat(a, b)
#define printf(...) (0)
#define fprintf(...) (0)
#define perror(s) (0)
#define strerror(e) ("error")
#define exit vh_exit
#define gsl_rng_get(r) ((r)->type->get((r)->state))
#define gsl_rng_set(r, s) ((r)->type->set((r)->state, s))
#ifndef V_TEXT
#ifdef V_STDIN
#include "rng_stdin_input_raw.c"
#else
#include "rng_file_input_raw.c"
int split(char *b) { return 0; }
void chop(char *b) { }
uint bit2uint(char *a, uint n) { return 0; }
#endif
#endif
#undef feof
#ifdef V_TEXT
/* ---- text files: a header of lines given by the configuration, then data lines */
static const char *hdr[] = { HDR };
#define NH (sizeof(hdr) / sizeof(hdr[0]))
static unsigned g_hline, g_dline;    /* next header line, next data line */
#define REW (g_hline = 0, g_dline = 0)
static unsigned g_uval; static double g_fval; static int g_blank, g_truncated; static unsigned g_dataline;
static char g_bits[40];
static vh_u64 g_fk;
static char *vh_fgets(char *s, int n, FILE *f)
{
  unsigned i;
  CHECK(f == VFP && g_handles > 0, "only the open file is read");
  if (g_truncated && g_hline >= NH) { vh_exit_ok = 1; return NULL; }
  if (g_hline < NH) {
    const char *h = hdr[g_hline++];
    for (i = 0; h[i]; i++) s[i] = h[i];
    s[i] = 0;
  } else {
    g_dataline = g_dline++;
#ifdef DW
    g_uval = DW;
#else
    g_uval = (unsigned)vin();
#endif
    g_reads++;
    if (TYPE == 'b') {
      for (i = 0; i < NBITS; i++) { g_bits[i] = vin() & 1 ? '1' : '0'; s[i] = g_bits[i]; }
      s[i] = '\n'; s[i + 1] = 0;
    } else { s[0] = 'D'; s[1] = '\n'; s[2] = 0; }
  }
  return s;
}
static int vh_sscanf(const char *b, const char *f, void *o)
{
  CHECK(b[0] == 'D', "a data line is converted");
  if (g_blank) { vh_exit_ok = 1; return g_blank == 1 ? 0 : EOF; }
  if (TYPE == 'e' || TYPE == 'E' || TYPE == 'f' || TYPE == 'F' || TYPE == 'g') {
    CHECK(f[0] == '%' && f[1] == 'l' && (f[2] == 'g' || f[2] == 'f' || f[2] == 'e'), "floating point data are converted as such");
#ifdef FBITS
    g_fk = vin_range(0, 1u << FBITS);
    g_fval = (double)g_fk / (1u << FBITS);
#else
    g_fval = vin_double();
    ASSUME(g_fval >= 0.0 && g_fval <= 1.0);
#endif
    *(double *)o = g_fval;
  } else {
    CHECK(f[0] == '%' && f[2] == 0 && (TYPE == 'o' ? f[1] == 'o' : TYPE == 'x' || TYPE == 'X' ? f[1] == 'x' || f[1] == 'X' : f[1] == 'u'),
          "integers are converted in the announced base");
    *(unsigned *)o = g_uval;
  }
  return 1;
}
static int vh_atoi(const char *s)
{
  int v = 0, neg = 0;
  if (*s == '-') { neg = 1; s++; }
  while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
  return neg ? -v : v;
}
#define fgets(a, b, c) vh_fgets(a, b, c)
#define sscanf(a, b, c) vh_sscanf(a, b, c)
#define atoi(a) vh_atoi(a)
#undef rewind
#define rewind(f) (vh_rewind(f), REW)
#undef fopen
#define fopen(a, b) (REW, vh_fopen(a, b))
/* contract of split() (proved by the unit "split"), for the header lines used here */
static char vh_split[3][16];
#define splitbuf vh_split
int split(char *b)
{
  int f = 0, i, j = 0;
  for (i = 0; b[i]; i++) {
    if (b[i] == ':' || b[i] == ' ' || b[i] == '\n') { if (j) { vh_split[f][j] = 0; f++; j = 0; } }
    else vh_split[f][j++] = b[i];
  }
  if (j) { vh_split[f][j] = 0; f++; }
  return f;
}
/* contract of chop() (proved by the unit "chop"): the last character is removed */
void chop(char *b) { int i; for (i = 0; b[i]; i++); CHECK(i > 0, "the line to be shortened is not empty"); b[i - 1] = 0; }
uint bit2uint(char *abit, uint blen)
{
  uint i; uint r = 0;
  for (i = 0; i < blen; i++) r = (r << 1) | (abit[i] == '1');
  return r;
}
#endif
#ifndef V_STDIN
#include "rng_file_input.c"
#undef stat

#ifdef V_TEXT
#define GT gsl_rng_file_input
#else
#define GT gsl_rng_file_input_raw
#endif
static file_input_state_t S;
static gsl_rng R;
#define CHK(c, m) CHECK(c, m)
static void init(void)
{
  unsigned k;
  vh_cfg(); verbose = 0; vh_exit_ok = 0;
  R.type = GT; R.state = &S;
  S.fp = NULL; S.flen = 0; S.rptr = 0; S.rtot = 0; S.rewind_cnt = 0;
  g_handles = g_opens = 0; g_isreg = 1; g_isdir = g_stat_fail = g_open_fail = 0; g_reads = 0; vh_eof = 0;
#ifdef NW
  for (k = 0; k < NW; k++) W[k] = (unsigned)vin();
#endif
}
#ifndef V_TEXT
#define HANDLES_OK (g_handles == 1)
static int inv(void) { return S.fp == VFP && HANDLES_OK && S.rptr >= 0 && g_pos == 4 * (vh_u64)S.rptr && (S.flen == 0 || S.rptr < S.flen); }
/* induction over any history: an arbitrary reachable state, one arbitrary operation */
void h_raw_step(void)
{
  off_t p, tot; unsigned rw; unsigned long v; double d;
  vh_u64 n, op;
  init();
  g_isreg = (int)vin_range(0, 1);
  g_size = vin_range(0, ((vh_u64)1 << 40));
  n = g_isreg ? g_size / 4 : 0;
  if (g_isreg && n < 16) vh_exit_ok = 1;
  GT->set(&S, vin_range(1, 0xffffffffu));
  CHK(!vh_exit_ok, "a file with fewer than 16 words is refused");
  CHK(inv() && g_pos == 0 && S.flen == (off_t)n, "a newly opened file is read from its first word, to its last whole word");
  CHK(file_input_get_rtot(&R) == 0 && file_input_get_rewind_cnt(&R) == 0, "a newly opened file has not been read");
  /* any reachable state */
  p = (off_t)vin_range(0, (vh_u64)1 << 38); tot = (off_t)vin_range(0, (vh_u64)1 << 50); rw = (unsigned)vin_range(0, 0x7fffffff);
  ASSUME(n == 0 || p < (off_t)n);
  ASSUME(p != 0 || rw > 0 || tot == 0);
  S.rptr = p; S.rtot = tot; S.rewind_cnt = rw; g_pos = 4 * (vh_u64)p; g_reads = 0; g_opens = 0;
  op = vin_range(0, 2);
  if (op == 0) {
    if (g_pos + 4 > g_size && !g_isreg) vh_exit_ok = 1;
    v = GT->get(&S);
    CHK(!vh_exit_ok, "reading past the end ends the program");
    CHK(g_reads == 1 && g_readpos == 4 * (vh_u64)p && v == g_word, "a request returns the next word of the file, unaltered");
    CHK(S.rtot == tot + 1, "the number of words returned is counted");
    if (n && p + 1 == (off_t)n) CHK(S.rptr == 0 && S.rewind_cnt == rw + 1, "after the last whole word the file starts over and the rewind is counted");
    else CHK(S.rptr == p + 1 && S.rewind_cnt == rw, "within the file nothing is rewound");
    CHK(inv() && g_opens == 0, "the file stays open at the next word");
  } else if (op == 1) {
    GT->set(&S, 0);
    CHK(S.rptr == p && S.rtot == tot && S.rewind_cnt == rw && g_reads == 0 && inv(), "a zero seed does not disturb the reading position");
  } else {
    GT->set(&S, vin_range(1, ~0ull));
    CHK(S.rptr == 0 && S.rtot == 0 && S.rewind_cnt == 0 && g_reads == 0 && inv() && S.flen == (off_t)n, "a nonzero seed restarts the file and its counts");
  }
  VH_END();
}
void h_raw_double(void)
{
  double d;
  init();
  g_size = 128;
  GT->set(&S, 1);
  d = GT->get_double(&S);
  CHK(g_reads == 1 && d == (unsigned long)g_word / (double)UINT_MAX, "the floating point output is the word scaled to [0,1]");
  CHK(GT->max == UINT_MAX && GT->min == 0, "the declared range is that of 32-bit words");
  VH_END();
}
#ifdef NW
/* histories on the public interface only */
void h_raw_history(void)
{
  unsigned i, n, pos = 0, k = 0;
  unsigned long v;
  init();
  n = NWORDS; g_size = 4 * n + vin_range(0, 3);
  if (n < 16) vh_exit_ok = 1;
  GT->set(&S, 0);             /* as done by the library when the generator is created */
  GT->set(&S, 1);
  for (i = 0; i < STEPS; i++) {
#ifdef RESEED
    if (vin_range(0, 1)) { GT->set(&S, 0); }
    else if (vin_range(0, 1)) { GT->set(&S, 7); k = 0; }
#endif
    v = GT->get(&S);
    CHK(v == W[k % n], "words are delivered in file order, wrapping after the last whole word");
    k++;
    CHK(file_input_get_rtot(&R) == k, "the reported total is the number of words returned");
    CHK(file_input_get_rewind_cnt(&R) == (k - 1) / n, "the reported rewind count is the number of times the file started over");
    CHK(g_handles == 1, "one file is open");
  }
  CHK(!vh_exit_ok, "a file with fewer than 16 words is refused");
  VH_END();
}
/* a second generator of the same kind behaves like the first */
void h_raw_second(void)
{
  unsigned i;
  static file_input_state_t S2;
  init();
  g_size = 4 * 16;
  GT->set(&S, 1);
  S2.fp = NULL; S2.flen = S2.rptr = S2.rtot = 0; S2.rewind_cnt = 0;
  GT->set(&S2, 1);
  for (i = 0; i < 18; i++) CHK(GT->get(&S2) == W[i % 16], "a generator created later delivers the file in the same way");
  VH_END();
}
#endif
void h_raw_refuse(void)
{
  init();
  g_size = vin_range(0, (vh_u64)1 << 40);
  switch (vin_range(0, 2)) {
  case 0: g_isreg = 0; g_isdir = 1; break;
  case 1: g_open_fail = 1; break;
  default: g_stat_fail = 1; g_open_fail = 1; break;
  }
  vh_exit_ok = 1;
  GT->set(&S, vin());
  CHK(0, "a directory or unreadable file is refused");
}
#else
/* text */
static int tinv(void) { return S.fp == VFP && g_handles >= 1 && S.rptr >= 0 && S.rptr < S.flen && g_hline == NH && g_dline == (unsigned)S.rptr; }
static void opened(void)
{
  CHK(S.flen == COUNT && S.rptr == 0, "the announced number of values is used");
  CHK(g_hline == NH && g_dline == 0 && g_reads == 0, "reading starts at the first data line after the header");
  CHK(filetype == TYPE && filenumbits == NBITS, "type and width are taken from the header");
}
static void value(unsigned long v)
{
  unsigned i, b = 0;
  if (TYPE == 'b') { for (i = 0; i < NBITS; i++) b = (b << 1) | (g_bits[i] == '1'); CHK(v == b, "a request returns the next value of the file"); }
  else if (TYPE == 'e' || TYPE == 'E' || TYPE == 'f' || TYPE == 'F' || TYPE == 'g') {
#ifdef FBITS
    CHK(v == ((g_fk * UINT_MAX) >> FBITS), "a value in [0,1] is scaled to the 32-bit range");
#endif
    CHK(v <= UINT_MAX, "a value in [0,1] is scaled to the 32-bit range");
  } else CHK(v == g_uval, "a request returns the next value of the file");
}
void h_text_step(void)
{
  off_t p, tot; unsigned rw; unsigned long v;
  vh_u64 op;
  init();
  g_blank = 0; g_truncated = 0;
  GT->set(&S, 12345);
  opened();
  CHK(S.rtot == 0 && S.rewind_cnt == 0 && tinv(), "a newly opened file has not been read");
  p = (off_t)vin_range(0, COUNT - 1); tot = (off_t)vin_range(0, (vh_u64)1 << 50); rw = (unsigned)vin_range(0, 0x7fffffff);
  S.rptr = p; S.rtot = tot; S.rewind_cnt = rw; g_dline = p; g_reads = 0; g_opens = 0;
  op = OP;
  if (op == 0) {
    v = GT->get(&S);
    CHK(g_reads == 1 && g_dataline == p, "a request reads the next data line");
    value(v);
    CHK(S.rtot == tot + 1, "the number of values returned is counted");
    if (p + 1 == COUNT) CHK(S.rptr == 0 && S.rewind_cnt == rw + 1, "after the last announced value the file starts over and the rewind is counted");
    else CHK(S.rptr == p + 1 && S.rewind_cnt == rw, "within the file nothing is rewound");
    CHK(tinv() && g_opens == 0, "the file stays open at the next value");
  } else if (op == 1) {
    GT->set(&S, 0);
    CHK(S.rptr == p && S.rtot == tot && S.rewind_cnt == rw && g_reads == 0 && tinv(), "a zero seed does not disturb the reading position");
  } else if (op == 2) {
    GT->set(&S, SEED);
    opened();
    CHK(S.rtot == 0 && S.rewind_cnt == 0 && tinv(), "a nonzero seed restarts the file and its counts");
  } else {
    if (TYPE == 'b') g_truncated = 1; else if (vin_range(0, 1)) g_truncated = 1; else g_blank = (int)vin_range(1, 2);
    v = GT->get(&S);
    CHK(0, "a missing or unconvertible value ends the program");
  }
  VH_END();
}
void h_text_history(void)
{
  unsigned i, k = 0;
  unsigned long v;
  init();
  g_blank = 0; g_truncated = 0;
  GT->set(&S, 0);
  GT->set(&S, 1);
  for (i = 0; i < STEPS; i++) {
    if (vin_range(0, 1)) GT->set(&S, 0);
    if (vin_range(0, 1)) { GT->set(&S, 7); k = 0; }
    v = GT->get(&S);
    value(v);
    CHK(g_dataline == k % COUNT, "values are delivered in file order, wrapping after the announced count");
    k++;
    CHK(file_input_get_rtot(&R) == k, "the reported total is the number of values returned");
    CHK(file_input_get_rewind_cnt(&R) == (k - 1) / COUNT, "the reported rewind count is the number of times the file started over");
  }
  VH_END();
}
void h_text_double(void)
{
  double d;
  init();
  g_blank = 0; g_truncated = 0;
  GT->set(&S, 1);
  d = GT->get_double(&S);
  CHK(d == (unsigned long)g_uval / (double)UINT_MAX, "the floating point output is the value scaled to [0,1]");
  CHK(GT->max == UINT_MAX && GT->min == 0, "the declared range is that of 32-bit words");
  VH_END();
}
#endif
#else
/* ---- standard input */
#undef stat
void h_stdin(void)
{
  unsigned i; unsigned long v; double d;
  const gsl_rng_type *t = gsl_rng_stdin_input_raw;
  char st[8];
  vh_cfg(); verbose = 0; vh_exit_ok = 0; vh_eof = 0; g_reads = 0; g_pos = 0;
  g_size = vin_range(0, (vh_u64)1 << 40);
  for (i = 0; i < NREQ; i++) {
    if (vin_range(0, 1)) t->set(st, vin());
    CHECK(g_reads == i, "seeding consumes nothing");
#ifdef DBL
    d = t->get_double(st);
    CHECK(d == (unsigned long)g_word / (double)UINT_MAX, "the floating point output is the word scaled to [0,1]");
#else
    v = t->get(st);
    CHECK(v == g_word, "a request returns the next word of the input, unaltered");
#endif
    CHECK(!vh_exit_ok, "the end of the input ends the program");
    CHECK(g_reads == i + 1 && g_readpos == 4 * i, "every word of the input is used exactly once, in order");
  }
  CHECK(t->max == UINT_MAX && t->min == 0, "the declared range is that of 32-bit words");
  VH_END();
}
#endif
