/* C24/C25 in process: the v* functions of the library get an argument area as
   the compiler's calling convention lays it out (one word per argument). */
#define _GNU_SOURCE
#include "h.h"
int mes_vsnprintf (char *, size_t, char const *, char *); int mes_vsprintf (char *, char const *, char *);
int mes_vfprintf (long, char const *, char *); int mes_vprintf (char const *, char *);
int mes_vsscanf (char const *, char const *, char *); int mes_vfscanf (long, char const *, char *);
int mes_fgetc (long); int mes_close (int); int mes_fdungetc (int, int);

static long value (void)
{
  static long e[] = {0,0,1,-1,9,10,-9,-10,99,100,-99,7,8,15,16,255,256,65535,2147483647L,-2147483648L,4294967295L,LONG_MAX,LONG_MIN,LONG_MIN+1};
  switch (h_r (3)) { case 0: return e[h_r (sizeof e / sizeof *e)]; case 1: return (long) h_next () >> h_r (64); default: return h_range (-200, 200); }
}
#define MAXA 40
static long args[MAXA + 2]; static int na;
static char *strs[MAXA]; static int nstr;
static int ns[8]; static int nn; static int nexp[8];
static char fmt[2000], hfmt[2000], exp_[20000];
static int elen;

static void emit (char const *s, int n) { memcpy (exp_ + elen, s, n); elen += n; exp_[elen] = 0; }

static void gen (void)
{
  int k = 0; na = nstr = nn = elen = 0; exp_[0] = 0;
  int items = 1 + h_r (h_r (4) ? 3 : 8);
  for (int it = 0; it < items; it++)
    {
      char one[100]; int o = 0;
      if (!h_r (3)) { for (int i = h_r (6); i >= 0; i--) { char c = "ab0 -.*ldsx\n\xff"[h_r (13)]; fmt[k++] = c; emit (&c, 1); } }
      int t = h_r (10);
      char conv = t == 0 ? '%' : t == 1 ? 'c' : t < 4 ? 's' : t == 4 && nn < 6 ? 'n' : "diouxX"[h_r (6)];
      one[o++] = '%';
      int left = 0, zero = 0, sp = 0, width = -1, prec = -1;
      if (conv != '%' && conv != 'n')
        {
          if (!h_r (4)) { one[o++] = '-'; left = 1; }
          if ((conv == 'd' || conv == 'i') && !h_r (6)) { one[o++] = ' '; sp = 1; }
          if (conv != 'c' && conv != 's' && !h_r (4)) { one[o++] = '0'; zero = 1; }
          if (!h_r (2))
            {
              width = h_r (4) ? h_r (14) : h_r (70);
              if (!h_r (4)) { one[o++] = '*'; args[na++] = (h_r (5) || !width) ? width : -width; if (args[na - 1] < 0) left = 1; }
              else { if (width == 0) width = 1; o += sprintf (one + o, "%d", width); }
            }
          if (conv != 'c' && !h_r (3))
            {
              prec = h_r (4) ? h_r (12) : h_r (60);
              one[o++] = '.';
              switch (h_r (5)) { case 0: one[o++] = '*'; if (!h_r (5)) { args[na++] = -1 - h_r (5); prec = -1; } else args[na++] = prec; break;
                case 1: prec = 0; break; default: o += sprintf (one + o, "%d", prec); }
            }
          if (conv != 'c' && conv != 's' && !h_r (2)) { one[o++] = 'l'; if (!h_r (3)) one[o++] = 'l'; }
        }
      one[o++] = conv; one[o] = 0;
      memcpy (fmt + k, one, o); k += o;
      /* independent rendering with the host, from the decoded directive */
      char h[40], r[400]; int p = 0, n = 0;
      h[p++] = '%'; if (left) h[p++] = '-'; if (sp) h[p++] = ' '; if (zero) h[p++] = '0';
      if (width >= 0) p += sprintf (h + p, "%d", width);
      if (width == 0) { p--; }
      if (prec >= 0) p += sprintf (h + p, ".%d", prec);
      if (conv == '%') { emit ("%", 1); }
      else if (conv == 'n') { args[na++] = (long) &ns[nn]; ns[nn] = -99; nexp[nn++] = elen; }
      else if (conv == 'c') { int c = h_r (3) ? 1 + h_r (255) : 'x'; args[na++] = h_r (2) ? c : (signed char) c; h[p++] = 'c'; h[p] = 0; n = snprintf (r, sizeof r, h, c); emit (r, n); }
      else if (conv == 's')
        {
          int l = h_r (4) ? h_r (10) : h_r (60);
          char *s;
          if (prec >= 0 && prec < l && h_r (2)) { s = malloc (prec + !prec); for (int i = 0; i < prec; i++) s[i] = 1 + h_r (255); if (!prec) s[0] = 'q'; l = prec; } /* not terminated */
          else { s = malloc (l + 1); for (int i = 0; i < l; i++) s[i] = h_r (3) ? 'a' + h_r (26) : 1 + h_r (255); s[l] = 0; }
          strs[nstr++] = s; args[na++] = (long) s;
          char hs[80]; memcpy (hs, s, prec >= 0 && prec <= l ? l : l + 1); hs[l] = 0;
          h[p++] = 's'; h[p] = 0; n = snprintf (r, sizeof r, h, hs); emit (r, n);
        }
      else { long v = value (); args[na++] = v; h[p++] = 'l'; h[p++] = conv; h[p] = 0; n = snprintf (r, sizeof r, h, v); emit (r, n); }
    }
  fmt[k] = 0;
}
static void show (char *o, size_t n) { int k = 0; for (int i = 0; i < na && k < 300; i++) k += snprintf (o + k, n - k, " %ld", args[i]); o[k] = 0; }
static void cmpn (char const *fn) { for (int i = 0; i < nn; i++) if (ns[i] != nexp[i]) h_bad ("percent-n", "%s (%s): %%n stores %d, expected %d", fn, h_hex (fmt, strlen (fmt)), ns[i], nexp[i]); }

static int tmpfd (void) { return memfd_create ("x", 0); }
static void do_print (void)
{
  static char got[21000]; char a[400];
  gen (); show (a, sizeof a);
  h_sig (h_hash (fmt, strlen (fmt), h_hash (exp_, elen, 1)));
  char *area = malloc (na * sizeof (long) + !na); memcpy (area, args, na * sizeof (long));
  int r;
  int which = h_r (4);
  if (which == 0)
    {
      size_t size = h_r (3) ? h_r (elen + 4) : elen + h_r (3);
      char *buf = malloc (size + !size); memset (buf, 0x77, size + !size);
      h_op ("vsnprintf size %zu %s args%s", size, h_hex (fmt, strlen (fmt)), a);
      h_count ("vsnprintf", 1); h_count ("cases", 1);
      r = mes_vsnprintf (buf, size, fmt, area);
      if (r != elen) h_bad ("vsnprintf-count", "vsnprintf (size %zu, %s, args%s) returns %d, expected %d", size, h_hex (fmt, strlen (fmt)), a, r, elen);
      size_t m = size == 0 ? 0 : (size_t) elen < size ? elen : size - 1;
      if (size && (memcmp (buf, exp_, m) || buf[m])) h_bad ("vsnprintf-text", "vsnprintf (size %zu, %s, args%s) gives %s, expected %s", size, h_hex (fmt, strlen (fmt)), a, h_hex (buf, m + 1), h_hex (exp_, m));
      if (!size && buf[0] != 0x77) h_bad ("vsnprintf-size0", "vsnprintf of size 0 writes");
      if (size && size <= (size_t) elen) h_count ("truncated", 1);
      free (buf); cmpn ("vsnprintf");
    }
  else if (which == 1)
    {
      char *buf = malloc (elen + 1);
      h_op ("vsprintf %s args%s", h_hex (fmt, strlen (fmt)), a);
      h_count ("vsprintf", 1); h_count ("cases", 1);
      r = mes_vsprintf (buf, fmt, area);
      if (r != elen || memcmp (buf, exp_, elen + 1)) h_bad ("vsprintf", "vsprintf (%s, args%s) gives %s (%d), expected %s (%d)", h_hex (fmt, strlen (fmt)), a, h_hex (buf, elen + 1), r, h_hex (exp_, elen), elen);
      free (buf); cmpn ("vsprintf");
    }
  else
    {
      int fd = tmpfd (), save = -1;
      h_op ("v%sprintf %s args%s", which == 2 ? "f" : "", h_hex (fmt, strlen (fmt)), a);
      h_count (which == 2 ? "vfprintf" : "vprintf", 1); h_count ("cases", 1);
      if (which == 3) { fflush (stdout); save = dup (1); dup2 (fd, 1); r = mes_vprintf (fmt, area); dup2 (save, 1); close (save); }
      else r = mes_vfprintf (fd, fmt, area);
      int n = pread (fd, got, sizeof got, 0); close (fd);
      if (r != elen) h_bad ("vfprintf-count", "v%sprintf (%s, args%s) returns %d, expected %d", which == 2 ? "f" : "", h_hex (fmt, strlen (fmt)), a, r, elen);
      if (n != elen || memcmp (got, exp_, elen)) h_bad ("vfprintf-text", "v%sprintf (%s, args%s) writes %s, expected %s", which == 2 ? "f" : "", h_hex (fmt, strlen (fmt)), a, h_hex (got, n < 0 ? 0 : n), h_hex (exp_, elen));
      cmpn ("vfprintf");
    }
  h_sample ("%s args%s -> %s", h_hex (fmt, strlen (fmt)), a, h_hex (exp_, elen));
  free (area);
  for (int i = 0; i < nstr; i++) free (strs[i]);
}

static void do_scan (void)
{
  char t[300], in[600]; int k = 0, n = 0; na = 0;
  char kinds[20];
  int items = 1 + h_r (4);
  if (!h_r (3)) for (int i = h_r (3); i > 0; i--) in[n++] = " \t\n"[h_r (3)], kinds[0] = 0;
  if (n && h_r (2)) t[k++] = ' ';
  int prevnum = 0;
  for (int it = 0; it < items; it++)
    {
      int c = h_r (8);
      if (c == 0 || prevnum)
        {
          for (int i = h_r (3) + prevnum; i > 0; i--)
            {
              char lit = ",:;=%() "[h_r (8)];
              if (lit == '%') { t[k++] = '%'; t[k++] = '%'; }
              else t[k++] = lit;
              if (lit == ' ') for (int j = h_r (3); j > 0; j--) in[n++] = " \n\t"[h_r (3)];
              else { in[n++] = h_r (25) ? lit : "x,9"[h_r (3)]; }
            }
          if (prevnum && !h_r (2)) in[n++] = ' ', t[k++] = ' ';
          prevnum = 0;
        }
      if (c == 1)
        { t[k++] = '%'; t[k++] = 'c'; kinds[na++] = 'c'; in[n++] = h_r (3) ? 'a' + h_r (26) : 1 + h_r (255); prevnum = 0; }
      else if (c > 1)
        {
          char conv = "dddiu"[h_r (5)]; int l = h_r (2);
          t[k++] = '%'; if (l) t[k++] = 'l'; t[k++] = conv;
          kinds[na++] = l ? 'l' : 'i';
          if (h_r (20)) for (int i = h_r (3); i > 0; i--) in[n++] = " \n\t"[h_r (3)];
          if (h_r (14))
            {
              long v = h_r (2) ? h_range (-1000, 1000) : l ? (long) h_next () >> h_range (1, 60) : (int) h_next () >> h_range (1, 30);
              if (conv == 'u' && v < 0) v = -(v + 1);
              unsigned long u = v < 0 ? -(unsigned long) v : v;
              if (v < 0) in[n++] = '-'; else if (!h_r (4)) in[n++] = '+';
              if (conv == 'i' && h_r (2)) n += sprintf (in + n, h_r (2) ? "0x%lx" : "0%lo", u);
              else n += sprintf (in + n, h_r (4) ? "%lu" : "000%lu", u);
            }
          else in[n++] = "z-+,x"[h_r (5)];
          prevnum = 1;
        }
    }
  if (!h_r (3)) { char const *tail = ",x 9"; in[n++] = tail[h_r (4)]; in[n++] = 'q'; }
  if (!h_r (12)) n = h_r (n + 1);
  t[k] = 0; in[n] = 0;
  for (int i = 0; i <= n; i++)   /* values that do not fit are undefined; "0x" without digits is left out */
    {
      int run = 0, hex = i > 0 && (in[i - 1] == 'x' || in[i - 1] == 'X');
      while (i + run < n && (hex ? isxdigit (in[i + run] & 255) : isdigit (in[i + run] & 255))) run++;
      if (run > (hex ? 15 : 18) || (hex && !run && i > 1 && in[i - 2] == '0')) return;
    }
  char *src = malloc (n + 1); memcpy (src, in, n + 1);
  /* one exactly sized object per conversion */
  void *g[20], *e[20];
  for (int i = 0; i < na; i++)
    {
      int z = kinds[i] == 'c' ? 1 : kinds[i] == 'l' ? 8 : 4;
      g[i] = malloc (z); e[i] = malloc (z); memset (g[i], 0x5b, z); memset (e[i], 0x5b, z); args[i] = (long) g[i];
    }
  int re = sscanf (src, t, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]);
  int rg; long pos = -1, epos = -1;
  h_sig (h_hash (t, k, h_hash (in, n, 2)));
  if (h_r (2))
    { h_op ("vsscanf %s of %s", h_hex (t, k), h_hex (in, n)); h_count ("vsscanf", 1); rg = mes_vsscanf (src, t, (char *) args); }
  else
    {
      int fd = tmpfd (); write (fd, in, n); lseek (fd, 0, SEEK_SET);
      h_op ("vfscanf %s of %s", h_hex (t, k), h_hex (in, n)); h_count ("vfscanf", 1);
      rg = mes_vfscanf (fd, t, (char *) args);
      /* nothing but what was matched may be consumed: the rest of the stream follows */
      char rest[700]; int m = 0, c;
      while (m < 690 && (c = mes_fgetc (fd)) >= 0) rest[m++] = c;
      mes_close (fd);
      FILE *f = fmemopen (n ? in : "", n ? n : 1, "r"); void *d[20]; char dump[20][8];
      if (n) { for (int i = 0; i < 20; i++) d[i] = dump[i];
      fscanf (f, t, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
      epos = ftell (f); pos = n - m; }
      fclose (f);
      if (n && (pos != epos || memcmp (rest, in + pos, m))) h_bad ("vfscanf-position", "vfscanf (%s, %s) leaves the stream at %ld, expected %ld", h_hex (in, n), h_hex (t, k), pos, epos);
    }
  h_count ("cases", 1); h_count (re == na ? "full-match" : "partial-match", 1); if (re > 0) h_count ("assignments", re);
  if (rg != re) h_bad ("scanf-count", "scanning %s with %s returns %d, expected %d", h_hex (in, n), h_hex (t, k), rg, re);
  for (int i = 0; i < na; i++)
    {
      int z = kinds[i] == 'c' ? 1 : kinds[i] == 'l' ? 8 : 4;
      if (memcmp (g[i], e[i], z)) h_bad ("scanf-value", "scanning %s with %s: argument %d is %ld, expected %ld", h_hex (in, n), h_hex (t, k), i, z == 8 ? *(long *) g[i] : z == 4 ? *(int *) g[i] : *(char *) g[i], z == 8 ? *(long *) e[i] : z == 4 ? *(int *) e[i] : *(char *) e[i]);
      free (g[i]); free (e[i]);
    }
  h_sample ("%s with %s -> %d", h_hex (in, n), h_hex (t, k), rg);
  free (src);
}
int main (int argc, char **argv)
{
  h_init (argc, argv);
  int scan = argc > 4 && !strcmp (argv[4], "scan");
  for (long i = 0; i < h_count_arg; i++) scan ? do_scan () : do_print ();
  return h_done ();
}
