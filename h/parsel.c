/* P10: line splitting (libdieharder/parse.c); field tables shrunk by the unit */
#include "vh.h"
#define printf(...) (0)
static char *g_tok;
static int in_set(char c, const char *d) { for (; *d; d++) if (*d == c) return 1; return 0; }
static char *vh_strtok(char *s, const char *d)
{
  char *r;
  if (!s) s = g_tok;
  if (!s) return NULL;
  while (*s && in_set(*s, d)) s++;
  if (!*s) { g_tok = NULL; return NULL; }
  r = s;
  while (*s && !in_set(*s, d)) s++;
  if (*s) { *s = 0; g_tok = s + 1; } else g_tok = NULL;
  return r;
}
static char *vh_strncpy(char *a, const char *b, size_t n)
{
  size_t i;
  for (i = 0; i < n && b[i]; i++) a[i] = b[i];
  for (; i < n; i++) a[i] = 0;
  return a;
}
#define strtok(a, b) vh_strtok(a, b)
#define strncpy(a, b, c) vh_strncpy(a, b, c)
#include "parse.c"
char splitbuf[PK][PBUF];
int verbose;
/* split(): the fields of a line of at most SPLIT characters */
static int issep(char c) { return c == ' ' || c == 9 || c == ',' || c == 10 || c == 13 || c == ':'; }
void h_split(void)
{
  char line[SPLIT + 1], copy[SPLIT + 1];
  unsigned i, j = 0, n, k;
  int r;
  n = (unsigned)vin_range(0, SPLIT);
  for (i = 0; i < SPLIT; i++) { line[i] = (char)vin(); if (i >= n) line[i] = 0; else ASSUME(line[i] != 0); copy[i] = line[i]; }
  line[SPLIT] = copy[SPLIT] = 0;
  k = 0;
  for (i = 0; i < n; i++) if (!issep(copy[i]) && (i == 0 || issep(copy[i - 1]))) k++;
  r = split(line);
  CHECK(r == (int)k, "the number of fields is returned");
  k = 0;
  for (i = 0; i < n; i++)
    if (!issep(copy[i])) {
      if (i == 0 || issep(copy[i - 1])) j = 0;
      CHECK(splitbuf[k][j] == copy[i], "each field is copied unaltered");
      j++;
      if (i + 1 == n || issep(copy[i + 1])) { CHECK(splitbuf[k][j] == 0, "each field is terminated"); k++; }
    }
  VH_END();
}
void h_chop(void)
{
  char line[SPLIT + 1], copy[SPLIT + 1];
  unsigned i, n;
  n = (unsigned)vin_range(1, SPLIT);
  for (i = 0; i <= SPLIT; i++) { line[i] = (char)vin(); if (i == n) line[i] = 0; else if (i < n) ASSUME(line[i] != 0); copy[i] = line[i]; }
  chop(line);
  for (i = 0; i <= SPLIT; i++) CHECK(line[i] == (i == n - 1 ? 0 : copy[i]), "exactly the last character is removed");
  VH_END();
}
