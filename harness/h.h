/* Shared helpers of the hosted C harnesses.
   Usage: prog SEED COUNT STATEFILE
   stdout protocol, one record per line:
     C name n        counter
     S text          sample
     N hash          a distinct non-trivial case signature (deduplicated in-process)
     B key<TAB>detail   a property violation
   STATEFILE is an mmap'ed page that names the operation in progress, so that
   the driver can attribute a sanitizer abort. */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <ctype.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

extern char **mes_environ;
static char *h_noenv[1];
static void mes_environ_init (void) { mes_environ = h_noenv; }
static uint64_t h_s[2];
static uint64_t h_next (void)
{
  uint64_t a = h_s[0], b = h_s[1];
  h_s[0] = b; a ^= a << 23;
  h_s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return h_s[1] + b;
}
static void h_seed (uint64_t s)
{
  h_s[0] = s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL; h_s[1] = s ^ 0xD1B54A32D192ED03ULL;
  for (int i = 0; i < 20; i++) h_next ();
}
static long h_r (long n) { return n <= 0 ? 0 : (long) (h_next () % (uint64_t) n); }
static long h_range (long a, long b) { return a + h_r (b - a + 1); }

static char *h_state;
static void h_op (char const *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (h_state, 4000, fmt, ap);
  va_end (ap);
}

#define H_MAXC 256
static struct { char name[64]; long n; } h_c[H_MAXC];
static int h_nc;
static void h_count (char const *name, long n)
{
  for (int i = 0; i < h_nc; i++)
    if (!strcmp (h_c[i].name, name)) { h_c[i].n += n; return; }
  if (h_nc < H_MAXC) { snprintf (h_c[h_nc].name, 64, "%s", name); h_c[h_nc++].n = n; }
}

#define H_NS (1 << 18)
static uint64_t *h_set;
static long h_nset;
static void h_sig (uint64_t x)
{
  if (!x) x = 1;
  uint64_t i = (x * 0x9E3779B97F4A7C15ULL) >> (64 - 18);
  while (h_set[i] && h_set[i] != x) i = (i + 1) & (H_NS - 1);
  if (!h_set[i] && h_nset < H_NS * 3 / 4) { h_set[i] = x; h_nset++; }
}
static uint64_t h_hash (void const *p, size_t n, uint64_t h)
{
  unsigned char const *q = p;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ULL;
  return h ^ (h >> 29);
}

static struct { char key[96]; int n; } h_b[H_MAXC];
static int h_nb;
static int h_keyed (char const *key)
{
  for (int i = 0; i < h_nb; i++)
    if (!strcmp (h_b[i].key, key)) return ++h_b[i].n;
  if (h_nb < H_MAXC) { snprintf (h_b[h_nb].key, 96, "%s", key); h_b[h_nb++].n = 1; }
  return 1;
}
static void h_bad (char const *key, char const *fmt, ...)
{
  if (h_keyed (key) > 2) return;
  va_list ap;
  va_start (ap, fmt);
  printf ("B %s\t", key);
  char buf[3000];
  vsnprintf (buf, sizeof buf, fmt, ap);
  for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
  printf ("%s\n", buf);
  fflush (stdout);
  va_end (ap);
}
static char const *h_hex (void const *p, size_t n)
{
  static char buf[8][700];
  static int k;
  char *b = buf[k++ & 7];
  unsigned char const *q = p;
  size_t i, j = 0;
  b[j++] = '"';
  for (i = 0; i < n && j < 640; i++)
    if (q[i] >= 32 && q[i] < 127 && q[i] != '"' && q[i] != '\\') b[j++] = q[i];
    else j += sprintf (b + j, "\\x%02x", q[i]);
  b[j++] = '"'; b[j] = 0;
  return b;
}
static int h_nsample;
static void h_sample (char const *fmt, ...)
{
  if (h_nsample++ >= 6) return;
  va_list ap;
  va_start (ap, fmt);
  printf ("S ");
  vprintf (fmt, ap);
  printf ("\n");
  va_end (ap);
}
static long h_count_arg;
static int h_argc; static char **h_argv;
static void h_init (int argc, char **argv)
{
  h_argc = argc; h_argv = argv;
  mes_environ_init ();
  h_seed (argc > 1 ? strtoull (argv[1], 0, 10) : 1);
  h_count_arg = argc > 2 ? atol (argv[2]) : 1000;
  h_set = calloc (H_NS, sizeof *h_set);
  if (argc > 3)
    {
      int fd = open (argv[3], O_RDWR | O_CREAT, 0600);
      ftruncate (fd, 4096);
      h_state = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close (fd);
    }
  else
    h_state = calloc (1, 4096);
  setvbuf (stdout, 0, _IOLBF, 0);
}
static int h_done (void)
{
  for (int i = 0; i < h_nc; i++) printf ("C %s %ld\n", h_c[i].name, h_c[i].n);
  for (long i = 0; i < H_NS; i++) if (h_set[i]) printf ("N %llx\n", (unsigned long long) h_set[i]);
  printf ("END\n");
  fflush (stdout);
  return 0;
}
#endif
