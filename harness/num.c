/* C21: number and character conversions against the host C library. */
#define _GNU_SOURCE
#include "h.h"
#include <wchar.h>
long mes_abtol (char const **, int); int mes_atoi (char const *); long mes_atol (char const *);
long mes_strtol (char const *, char **, int); unsigned long mes_strtoul (char const *, char **, int);
long long mes_strtoll (char const *, char **, int); unsigned long long mes_strtoull (char const *, char **, int);
char *mes_ntoab (long, unsigned, int); char *mes_itoa (int); char *mes_ltoa (long); char *mes_ltoab (long, int);
char *mes_ultoa (unsigned long); char *mes_utoa (unsigned);
int mes_isnumber (int, int); int mes_abs (int);
#define CT(X) X(isalnum) X(isalpha) X(iscntrl) X(isdigit) X(isgraph) X(islower) X(isprint) X(ispunct) X(isspace) X(isupper) X(isxdigit) X(isascii)
#define D(f) int mes_##f (int);
CT(D)
int mes_toupper (int); int mes_tolower (int);

static long value (void)
{
  static long e[] = {0,1,-1,2,7,8,9,10,15,16,-8,-9,-10,255,256,32767,32768,65535,2147483647L,2147483648L,-2147483648L,-2147483649L,4294967295L,4294967296L,LONG_MAX,LONG_MIN,LONG_MAX-1,LONG_MIN+1};
  switch (h_r (4))
    {
    case 0: return e[h_r (sizeof e / sizeof *e)];
    case 1: return (long) h_next () >> h_r (64);
    case 2: { unsigned long p = 1; int b = h_range (2, 36); int k = h_r (63); for (int i = 0; i < k; i++) { if (p > LONG_MAX / b) break; p *= b; } return (h_r (2) ? (long) p : -(long) p) + h_range (-1, 1); }
    default: return h_range (-1000, 1000);
    }
}
static int todigits (char *o, unsigned long u, int base, int upper)
{
  char t[80]; int n = 0, k = 0;
  do { int d = u % base; t[n++] = d < 10 ? '0' + d : (upper == 2 ? h_r (2) : upper) ? 'A' + d - 10 : 'a' + d - 10; u /= base; } while (u);
  while (n) o[k++] = t[--n];
  o[k] = 0;
  return k;
}
static void check_ntoab (char const *key, char const *got, long v, int base, int sgn)
{
  char b[80]; int k = 0;
  unsigned long u = v;
  if (sgn && v < 0) { b[k++] = '-'; u = 0 - u; }
  todigits (b + k, u, base, 0);
  h_count (key, 1); h_count ("cases", 1);
  if (strcmp (got, b)) h_bad (key, "%s: value %ld base %d signed %d gives %s, expected %s", key, v, base, sgn, h_hex (got, strlen (got)), b);
}
int main (int argc, char **argv)
{
  h_init (argc, argv);
  /* exhaustive character classification */
  for (int c = -1; c < 256; c++)
    {
      h_op ("ctype %d", c);
#define T(f) { int g = mes_##f (c); int e = c < 0 ? 0 : f (c); h_count ("ctype", 1); h_count ("cases", 1); h_sig (h_hash (#f, strlen (#f), c + 7)); \
        if (!!g != !!e) h_bad (#f, #f " (%d) = %d, expected %s", c, g, e ? "true" : "false"); }
      CT(T)
      if (mes_toupper (c) != toupper (c)) h_bad ("toupper", "toupper (%d) = %d, expected %d", c, mes_toupper (c), toupper (c));
      if (mes_tolower (c) != tolower (c)) h_bad ("tolower", "tolower (%d) = %d, expected %d", c, mes_tolower (c), tolower (c));
      h_count ("cases", 2);
      for (int b = 2; b <= 36; b++)
        {
          int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
          if (!!mes_isnumber (c, b) != (d < b)) h_bad ("isnumber", "isnumber (%d, %d) = %d", c, b, mes_isnumber (c, b));
          h_count ("cases", 1);
        }
    }
  for (long it = 0; it < h_count_arg; it++)
    {
      long v = value ();
      int base = h_r (3) ? (int[]) {2, 8, 10, 10, 16, 36}[h_r (6)] : h_range (2, 36);
      int op = h_r (12);
      h_op ("op %d value %ld base %d", op, v, base);
      h_sig (h_hash (&v, sizeof v, op * 64 + base));
      switch (op)
        {
        case 0: check_ntoab ("ntoab", mes_ntoab (v, base, 1), v, base, 1); break;
        case 1: check_ntoab ("ntoab", mes_ntoab (v, base, 0), v, base, 0); break;
        case 2: check_ntoab ("itoa", mes_itoa ((int) v), (int) v, 10, 1); break;
        case 3: check_ntoab ("ltoa", mes_ltoa (v), v, 10, 1); break;
        case 4: check_ntoab ("ltoab", mes_ltoab (v, base), v, base, 1); break;
        case 5: check_ntoab ("ultoa", mes_ultoa (v), v, 10, 0); break;
        case 6: check_ntoab ("utoa", mes_utoa ((unsigned) v), (unsigned) v, 10, 0); break;
        default:
          {
            /* text to number: white space, sign, prefix, digits of the base, then a tail */
            char t[200]; int k = 0;
            int b0 = h_r (6) ? base : (h_r (2) ? 0 : 16);
            int uns = op == 9 || op == 11;
            for (int i = h_r (4); i > 0; i--) t[k++] = " \t\n\v\f\r"[h_r (6)];
            int kind = h_r (10);
            int digits = b0 ? b0 : 10;
            if (kind)
              {
                unsigned long u = v;
                int neg = !uns && v < 0;
                if (neg) { t[k++] = '-'; u = 0 - u; }
                else if (!h_r (3)) t[k++] = '+';
                if ((b0 == 0 || b0 == 16) && !h_r (2)) { t[k++] = '0'; t[k++] = "xX"[h_r (2)]; digits = 16; }
                else if (b0 == 0 && !h_r (2)) { t[k++] = '0'; digits = 8; }
                else if (b0 && !h_r (4)) for (int i = h_r (5); i > 0; i--) t[k++] = '0';
                if (kind != 1) k += todigits (t + k, u, digits, 2);
                else if (!h_r (2)) k += todigits (t + k, h_r (digits), digits, 2);
              }
            /* tail: nothing, or something that may or may not be a digit */
            for (int i = h_r (3) ? h_r (3) : 0; i > 0; i--) { int c = " xg9zZ/:@[`{.-+\x80\xff""8a"[h_r (20)]; t[k++] = c; if (kind > 1 && isalnum (c & 255)) { k--; break; } }
            t[k] = 0;
            char *m = malloc (k + 1); memcpy (m, t, k + 1);
            char *te = 0, *tg = 0;
            char const *fn = "?";
            h_op ("op %d text %s base %d", op, h_hex (t, k), b0);
            long g = 0, e = 0;
            errno = 0;
            if (op == 7)
              { fn = "strtol"; e = strtol (m, &te, b0); g = mes_strtol (m, &tg, b0); }
            else if (op == 8)
              { fn = "strtoll"; e = strtoll (m, &te, b0); g = mes_strtoll (m, &tg, b0); }
            else if (op == 9)
              { fn = h_r (2) ? "strtoul" : "strtoull"; e = strtoul (m, &te, b0); g = !strcmp (fn, "strtoul") ? mes_strtoul (m, &tg, b0) : mes_strtoull (m, &tg, b0); }
            else if (op == 10)
              {
                fn = h_r (2) ? "atol" : "atoi"; te = tg = 0;
                if (!strcmp (fn, "atol")) { e = strtol (m, 0, 10); g = mes_atol (m); }
                else { e = strtol (m, 0, 10); if (e != (int) e) errno = ERANGE; g = mes_atoi (m); }
              }
            else
              {
                /* abtol: no prefix handling, the position is always past what was read */
                fn = "abtol";
                char const *p = m; char *q;
                int bb = b0 ? b0 : 10;
                if (strchr (m, 'x') || strchr (m, 'X')) bb = h_r (2) ? 8 : 10;
                e = strtol (m, &q, bb); if (errno) { errno = 0; e = (long) strtoul (m, &q, bb); }
                g = mes_abtol (&p, bb);
                if (q != m) { te = q; tg = (char *) p; } else if (g == 0) g = e; 
              }
            h_count (fn, 1); h_count ("cases", 1);
            if (errno == ERANGE) h_count ("out-of-range", 1);
            else
              {
                h_sig (h_hash (t, k, op * 64 + b0));
                if (g != e) h_bad (fn, "%s (%s, base %d) = %ld, expected %ld", fn, h_hex (t, k), b0, g, e);
                if (te != tg) h_bad (fn, "%s (%s, base %d) ends at %ld, expected %ld", fn, h_hex (t, k), b0, tg ? tg - m : -1L, te ? te - m : -1L);
              }
            if (op < 9) { /* a null tail pointer must be accepted */
              if (op == 7 && mes_strtol (m, 0, b0) != g) h_bad ("strtol", "null tail pointer changes the value of %s", h_hex (t, k)); }
            h_sample ("%s (%s, base %d) = %ld", fn, h_hex (t, k), b0, g);
            free (m);
          }
        }
    }
  return h_done ();
}
