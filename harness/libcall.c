/* Runs a script of pure library calls and records what each returns.  The same
   source is compiled by gcc and by MesCC with the Mes C library (and what the
   standard covers with the host's).  Usage: libcall SCRIPT.  */
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef HOSTED
#include <mes/lib.h>
ssize_t _write (int fd, void const *p, size_t n);
char *strlwr (char *string);
char *strupr (char *string);
#else
#define _GNU_SOURCE 1
#define _write write
#endif

char line[70000];
int line_n;
char *script;
char *tok[60];
int ntok;
long len[60];
char buf[70000];
char buf2[20000];
long nums[600];
char hexd[17] = "0123456789abcdef";
int compared;

void out_flush (void) { if (line_n) _write (1, line, line_n); line_n = 0; }
void outc (int c) { line[line_n] = c; line_n = line_n + 1; if (line_n > 69000) out_flush (); }
void outs (char *s) { while (*s) { outc (*s); s = s + 1; } }
void outn (long x)
{
  char t[24]; int k; unsigned long u;
  outc (' ');
  u = x; k = 0;
  if (x < 0) { outc ('-'); u = 0 - u; }
  t[k] = '0' + u % 10; k = k + 1; u = u / 10;
  while (u) { t[k] = '0' + u % 10; k = k + 1; u = u / 10; }
  while (k) { k = k - 1; outc (t[k]); }
}
void outhex (char *p, long n)
{
  int c;
  outs (" x");
  while (n > 0) { c = *p; c = c & 255; outc (hexd[c >> 4]); outc (hexd[c & 15]); p = p + 1; n = n - 1; }
}
void outstr (char *s) { if (s) outhex (s, strlen (s)); else outs (" null"); }
/* Where P points relative to S. */
void outpos (char *p, char *s) { if (p) outn (p - s); else outs (" null"); }
void outsign (int x) { outn (x < 0 ? -1 : x > 0); }

int hexv (int c) { if (c >= 'a') return c - 'a' + 10; return c - '0'; }
/* Decodes token K in place. */
void decode (int k)
{
  char *s; char *d; int v;
  s = tok[k] + 1;
  d = s;
  while (*s) { v = 16 * hexv (s[0]) + hexv (s[1]); *d = v; d = d + 1; s = s + 2; }
  *d = 0;
  len[k] = d - tok[k] - 1;
}
char *str (int k)
{
  if (k >= ntok) return "";
  return tok[k][0] == 'x' ? tok[k] + 1 : tok[k];
}
long slen (int k) { return len[k]; }
long num (int k)
{
  char *s; long v; int neg;
  if (k >= ntok) return 0;
  s = tok[k]; v = 0; neg = 0;
  if (*s == '-') { neg = 1; s = s + 1; }
  while (*s) { v = v * 10 + (*s - '0'); s = s + 1; }
  if (neg) return 0 - v;
  return v;
}

int cmp_long (void const *a, void const *b)
{
  long const *x; long const *y;
  x = a; y = b;
  compared = compared + 1;
  if (*x < *y) return -1;
  return *x > *y;
}
int cmp_back (void const *a, void const *b) { return cmp_long (b, a); }
struct rec { int key; char tag[3]; };
struct rec recs[300];
int cmp_rec (void const *a, void const *b)
{
  struct rec *x; struct rec *y;
  x = (struct rec *) a; y = (struct rec *) b;
  if (x->key != y->key) return x->key < y->key ? -1 : 1;
  return strcmp (x->tag, y->tag);
}

int string_op (char *o)
{
  char *a; char *b; long n; long m;
  a = ""; b = "";
  n = 0; m = 0;
  if (ntok > 1 && tok[1][0] == 'x') { n = slen (1); a = str (1); }
  if (ntok > 2 && tok[2][0] == 'x') { m = slen (2); b = str (2); }
  if (!strcmp (o, "strlen")) outn (strlen (a));
  else if (!strcmp (o, "strcmp")) outsign (strcmp (a, b));
  else if (!strcmp (o, "strncmp")) outsign (strncmp (a, b, num (3)));
  else if (!strcmp (o, "memcmp")) outsign (memcmp (a, b, n < m ? n : m));
  else if (!strcmp (o, "strcpy")) { memset (buf, 'z', n + 10); outn (strcpy (buf, a) == buf); outhex (buf, n + 5); }
  else if (!strcmp (o, "strncpy")) { memset (buf, 'z', 300); outn (strncpy (buf, a, num (2)) == buf); outhex (buf, num (2) + 3); }
  else if (!strcmp (o, "strcat")) { memset (buf, 'z', n + m + 10); strcpy (buf, a); outn (strcat (buf, b) == buf); outhex (buf, n + m + 3); }
  else if (!strcmp (o, "strncat")) { memset (buf, 'z', n + m + 300); strcpy (buf, a); outn (strncat (buf, b, num (3)) == buf); outhex (buf, n + m + 3); }
  else if (!strcmp (o, "memcpy")) { memset (buf, 'z', n + 10); outn (memcpy (buf + 3, a, n) == buf + 3); outhex (buf, n + 6); }
  else if (!strcmp (o, "memmove")) { memcpy (buf, a, n + 1); m = num (2); outn (memmove (buf + m, buf + num (3), num (4)) == buf + m); outhex (buf, n); }
  else if (!strcmp (o, "memset")) { memset (buf, 'z', 400); outn (memset (buf + 2, num (1), num (2)) == buf + 2); outhex (buf, num (2) + 5); }
  else if (!strcmp (o, "strchr")) outpos (strchr (a, num (2)), a);
  else if (!strcmp (o, "strrchr")) outpos (strrchr (a, num (2)), a);
  else if (!strcmp (o, "index")) outpos (index (a, num (2)), a);
  else if (!strcmp (o, "rindex")) outpos (rindex (a, num (2)), a);
  else if (!strcmp (o, "memchr")) outpos (memchr (a, num (2), n), a);
  else if (!strcmp (o, "strstr")) outpos (strstr (a, b), a);
  else if (!strcmp (o, "memmem")) outpos (memmem (a, n, b, m), a);
  else if (!strcmp (o, "strspn")) outn (strspn (a, b));
  else if (!strcmp (o, "strcspn")) outn (strcspn (a, b));
  else if (!strcmp (o, "strpbrk")) outpos (strpbrk (a, b), a);
  else if (!strcmp (o, "strdup")) { b = strdup (a); outstr (b); outn (b != a); free (b); }
  else if (!strcmp (o, "bcmp")) outn (bcmp (a, b, n < m ? n : m) == 0);
  else if (!strcmp (o, "bcopy")) { memset (buf, 'z', n + 10); bcopy (a, buf + 1, n); outhex (buf, n + 4); }
  else if (!strcmp (o, "bzero")) { memset (buf, 'z', 400); bzero (buf + 1, num (1)); outhex (buf, num (1) + 4); }
#ifndef HOSTED
  else if (!strcmp (o, "strlwr")) { strcpy (buf, a); outn (strlwr (buf) == buf); outstr (buf); }
  else if (!strcmp (o, "strupr")) { strcpy (buf, a); outn (strupr (buf) == buf); outstr (buf); }
  else if (!strcmp (o, "strerror")) outstr (strerror (num (1)));
  else if (!strcmp (o, "itoa")) outstr (itoa (num (1)));
  else if (!strcmp (o, "ltoa")) outstr (ltoa (num (1)));
  else if (!strcmp (o, "utoa")) outstr (utoa (num (1)));
  else if (!strcmp (o, "ultoa")) outstr (ultoa (num (1)));
  else if (!strcmp (o, "ntoab")) outstr (ntoab (num (1), num (2), num (3)));
  else if (!strcmp (o, "ltoab")) outstr (ltoab (num (1), num (2)));
  else if (!strcmp (o, "isnumber")) { outn (isnumber (a, num (2))); }
  else if (!strcmp (o, "abtol")) { b = a; n = abtol ((char const **) &b, num (2)); outn (n); outpos (b, a); }
  else if (!strcmp (o, "eputs")) { out_flush (); outn (eputs (a) >= 0); }
  else if (!strcmp (o, "oputs")) { out_flush (); outn (oputs (a) >= 0); }
  else if (!strcmp (o, "fdputs")) { out_flush (); outn (fdputs (a, 1) >= 0); }
  else if (!strcmp (o, "fdputc")) { out_flush (); outn (fdputc (num (1), 1) >= 0); }
#endif
  else return 0;
  return 1;
}

int stdlib_op (char *o)
{
  char *a; char *e; long n; long i; unsigned long u; double d;
  a = "";
  if (ntok > 1 && tok[1][0] == 'x') a = str (1);
  if (!strcmp (o, "atoi")) outn (atoi (a));
  else if (!strcmp (o, "atol")) outn (atol (a));
  else if (!strcmp (o, "strtol")) { e = 0; n = strtol (a, &e, num (2)); outn (n); outpos (e, a); }
  else if (!strcmp (o, "strtoul")) { e = 0; u = strtoul (a, &e, num (2)); outn (u / 2); outn (u & 1); outpos (e, a); }
  else if (!strcmp (o, "strtoll")) { e = 0; n = strtoll (a, &e, num (2)); outn (n); outpos (e, a); }
  else if (!strcmp (o, "abs")) outn (abs (num (1)));
  else if (!strcmp (o, "ctype"))
    {
      i = num (1);
      outn (!!isalnum (i)); outn (!!isalpha (i)); outn (!!isascii (i)); outn (!!iscntrl (i)); outn (!!isdigit (i)); outn (!!isgraph (i)); outn (!!islower (i));
      outn (!!isprint (i)); outn (!!ispunct (i)); outn (!!isspace (i)); outn (!!isupper (i)); outn (!!isxdigit (i)); outn (tolower (i)); outn (toupper (i));
    }
  else if (!strcmp (o, "qsort"))
    {
      n = ntok - 2;
      i = 0;
      while (i < n) { nums[i] = num (i + 2); i = i + 1; }
      compared = 0;
      qsort (nums, n, sizeof (long), num (1) ? cmp_back : cmp_long);
      i = 0;
      while (i < n) { outn (nums[i]); i = i + 1; }
    }
  else if (!strcmp (o, "qsortrec"))
    {
      n = num (1); i = 0; u = num (2);
      while (i < n) { u = (u * 75 + 74) % 65537; recs[i].key = u % 40; recs[i].tag[0] = 'a' + u % 26; recs[i].tag[1] = 'A' + u % 20; recs[i].tag[2] = 0; i = i + 1; }
      qsort (recs, n, sizeof (struct rec), cmp_rec);
      i = 0;
      while (i < n) { outn (recs[i].key); outs (recs[i].tag); i = i + 1; }
    }
  else if (!strcmp (o, "alloc"))
    {
      char *p; char *q;
      n = num (1); i = num (2);
      p = malloc (n);
      memset (p, 7, n);
      q = calloc (i, 3);
      u = 0;
      a = q;
      while (a < q + 3 * i) { u = u + *a; a = a + 1; }
      outn (u);
      p = realloc (p, n + i + 1);
      a = p;
      while (a < p + n) { u = u + *a; a = a + 1; }
      outn (u);
      free (q); free (p);
    }
  else return 0;
  return 1;
}

int vs (char *b, long n, char *f, ...)
{
  va_list ap; int r;
  va_start (ap, f);
  r = vsnprintf (b, n, f, ap);
  va_end (ap);
  return r;
}

/* fmt FORMAT BOUND arguments: up to four, strings as x..., integers plain */
int format_op (char *o)
{
  char *f; long a[4]; int i; long n; int r; FILE *s; int fd;
  if (!strcmp (o, "fmt") || !strcmp (o, "ffmt") || !strcmp (o, "pfmt"))
    {
      f = str (1); n = num (2);
      i = 0;
      while (i < 4) { a[i] = 0; if (i + 3 < ntok) { if (tok[i + 3][0] == 'x') a[i] = (long) str (i + 3); else a[i] = num (i + 3); } i = i + 1; }
      if (*o == 'p') { out_flush (); r = printf (f, a[0], a[1], a[2], a[3]); fflush (stdout); outn (r); return 1; }
      if (o[1] == 'f')
        {
          s = fopen ("fmt.txt", "w");
          r = fprintf (s, f, a[0], a[1], a[2], a[3]);
          fclose (s);
          memset (buf, 'z', 100);
          fd = open ("fmt.txt", O_RDONLY);
          n = read (fd, buf, 5000);
          close (fd);
          outn (r); outn (n); outhex (buf, n);
          return 1;
        }
      memset (buf, 'z', n + 10);
      r = snprintf (buf, n, f, a[0], a[1], a[2], a[3]);
      outn (r); outhex (buf, n + 4);
      memset (buf, 'z', n + 10);
      r = vs (buf, n, f, a[0], a[1], a[2], a[3]);
      outn (r); outhex (buf, n + 4);
      if (r >= 0 && r < 5000) { memset (buf, 'z', r + 10); r = sprintf (buf, f, a[0], a[1], a[2], a[3]); outn (r); outhex (buf, r + 4); }
    }
  else if (!strcmp (o, "scan"))
    {
      /* scan TEXT FORMAT: three ints, or longs where the format has l */
      int x[8]; int y[8]; int z[8]; char *t;
      t = str (1);
      f = str (2);
      memset (x, 0x55, 32); memset (y, 0x55, 32); memset (z, 0x55, 32);
      r = sscanf (t, f, x, y, z);
      outn (r); outn (x[0]); outn (y[0]); outn (z[0]); outn (((char *) x)[0]); outn (((char *) y)[0]); outn (x[2]); outn (y[2]);
    }
  else return 0;
  return 1;
}

int main (int argc, char **argv)
{
  char *p; char *q; int fd; long n; long r; int op; int k;
  script = malloc (500000);
  fd = open (argv[1], O_RDONLY);
  n = 0;
  while ((r = read (fd, script + n, 65536)) > 0) n = n + r;
  script[n] = 0;
  close (fd);
  p = script;
  op = 0;
  while (*p)
    {
      ntok = 0;
      q = p;
      while (*q && *q != '\n') q = q + 1;
      if (*q) { *q = 0; q = q + 1; }
      while (*p)
        {
          while (*p == ' ') { *p = 0; p = p + 1; }
          if (*p) { tok[ntok] = p; ntok = ntok + 1; }
          while (*p && *p != ' ') p = p + 1;
        }
      p = q;
      if (ntok)
        {
          k = 1;
          while (k < ntok) { if (tok[k][0] == 'x') decode (k); k = k + 1; }
          outn (op); outc (' '); outs (tok[0]);
          k = string_op (tok[0]);
          if (!k) k = stdlib_op (tok[0]);
          if (!k) k = format_op (tok[0]);
          if (!k) outs (" unknown");
          outc ('\n');
        }
      op = op + 1;
    }
  outs ("done\n");
  out_flush ();
  return op & 127;
}
