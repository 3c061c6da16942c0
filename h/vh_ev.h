/* What the code under test prints, as a sequence of events, independent of
 * how the printing calls are arranged:
 *   WORD h  a maximal run of letters, digits and _ - / # = in literal text or
 *           string conversions (h = hash of its characters)
 *   CH c    any other printed character except a blank; any %c conversion
 *   NUM v   an integer conversion  (v = value as 64 bits)
 *   DBL d   a floating conversion  (bits of d, and the digits after the point)
 */
#ifndef VH_EV_H
#define VH_EV_H
#ifndef EVMAX
#define EVMAX 64
#endif
#ifndef VH_NATIVE
/* the recorder itself is not under test */
#pragma CPROVER check push
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#define VA_CHAR char      /* goto-cc passes a char argument unpromoted */
#else
#define VA_CHAR int
#endif
enum { EV_NONE, EV_CH, EV_NUM, EV_DBL, EV_WORD };
/* One event index ev_k is chosen arbitrarily, and only that event and the
 * number of events are kept: equality of the kept event and of the counts,
 * for every choice of ev_k, is equality of the whole output. */
struct evs { unsigned n; int inword; vh_u64 hash; int kind; vh_u64 val; int prec; };
static unsigned ev_k;
static struct evs ev_real, ev_spec;
static int ev_padded;     /* some conversion pads with blanks */
static void ev_raw(struct evs *e, int kind, vh_u64 val, int prec)
{
  if (e->n == ev_k) { e->kind = kind; e->val = val; e->prec = prec; }
  e->n++;
}
static void ev_flush(struct evs *e) { if (e->inword) { e->inword = 0; ev_raw(e, EV_WORD, e->hash, 0); } }
static void ev_put(struct evs *e, int kind, vh_u64 val, int prec) { ev_flush(e); ev_raw(e, kind, val, prec); }
static int ev_wordch(char c)
{
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '/' || c == '#' || c == '=';
}
static void ev_ch(struct evs *e, char c)
{
  if (ev_wordch(c)) { if (!e->inword) { e->inword = 1; e->hash = 7; } e->hash = e->hash * 131 + (unsigned char)c; }
  else if (c == ' ') ev_flush(e);
  else ev_put(e, EV_CH, (unsigned char)c, 0);
}
static void ev_str(struct evs *e, const char *s) { unsigned i; for (i = 0; s[i]; i++) ev_ch(e, s[i]); }
static void ev_dbl(struct evs *e, double d, int prec)
{
  union { double d; vh_u64 u; } c; c.d = d; ev_put(e, EV_DBL, c.u, prec);
}
static void ev_pick(void) { ev_k = (unsigned)vin_range(0, EVMAX - 1); }
static void ev_init(void)
{
  ev_real.n = ev_spec.n = 0; ev_real.inword = ev_spec.inword = 0; ev_padded = 0;
  ev_real.kind = ev_spec.kind = EV_NONE; ev_real.val = ev_spec.val = 0; ev_real.prec = ev_spec.prec = 0;
}
static int ev_same(void)
{
  ev_flush(&ev_real); ev_flush(&ev_spec);
  return ev_real.n == ev_spec.n && ev_spec.n < EVMAX && ev_real.kind == ev_spec.kind && ev_real.val == ev_spec.val && ev_real.prec == ev_spec.prec;
}
static int vh_out(const char *f, ...)
{
  va_list ap;
  unsigned i, j, width, lng, len, q;
  int prec;
  va_start(ap, f);
  for (i = 0; f[i]; ) {
    if (f[i] != '%') { if (f[i] == ' ') ev_padded = 1; ev_ch(&ev_real, f[i]); i++; continue; }
    i++;
    if (f[i] == '%') { ev_put(&ev_real, EV_CH, '%', 0); i++; continue; }
    width = 0; prec = -1; lng = 0;
    while (f[i] == '-' || f[i] == '0') i++;
    while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (unsigned)(f[i] - '0'); i++; }
    if (f[i] == '.') { i++; prec = 0; while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; } }
    while (f[i] == 'l' || f[i] == 'z') { lng++; i++; }
    switch (f[i]) {
    case 'c': { int c = va_arg(ap, VA_CHAR); ev_put(&ev_real, EV_CH, (unsigned char)c, 0); break; }
    case 's': { const char *s = va_arg(ap, const char *); len = 0;
      for (j = 0; s[j] && (prec < 0 || j < (unsigned)prec); j++) { len++; if (s[j] == ' ') ev_padded = 1; ev_ch(&ev_real, s[j]); }
      if (width > len) ev_padded = 1;
      break; }
    case 'd': case 'i': if (lng) ev_put(&ev_real, EV_NUM, (vh_u64)va_arg(ap, long), 0); else ev_put(&ev_real, EV_NUM, (vh_u64)(long long)va_arg(ap, int), 0);
      if (width > 1) ev_padded = 1;
      break;
    case 'u': if (lng) ev_put(&ev_real, EV_NUM, va_arg(ap, unsigned long), 0); else ev_put(&ev_real, EV_NUM, va_arg(ap, unsigned), 0);
      if (width > 1) ev_padded = 1;
      break;
    case 'x': case 'X': ev_put(&ev_real, EV_NUM, va_arg(ap, unsigned), 0); break;
    case 'f': case 'e': case 'g': { double d = va_arg(ap, double); ev_dbl(&ev_real, d, prec < 0 ? 6 : prec);
      if (width > 2 + (prec < 0 ? 6 : prec) && f[i] == 'f') ev_padded = 1;
      break; }
    default: CHECK(0, "unsupported conversion in a printed format"); vh_stop();
    }
    i++;
  }
  va_end(ap);
  (void)q;
  return 0;
}
#ifndef VH_NATIVE
#pragma CPROVER check pop
#endif
#endif
