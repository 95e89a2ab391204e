/* C20: string and memory functions against the host C library, operands in
   exactly sized heap blocks so that ASan sees any access outside them. */
#define _GNU_SOURCE
#include "h.h"
#include <strings.h>
void *mes_memchr (void const *, int, size_t); int mes_memcmp (void const *, void const *, size_t);
void *mes_memcpy (void *, void const *, size_t); void *mes_memmove (void *, void const *, size_t);
void *mes_memset (void *, int, size_t); void *mes_memmem (void const *, int, void const *, int);
char *mes_strcat (char *, char const *); char *mes_strchr (char const *, int);
int mes_strcmp (char const *, char const *); char *mes_strcpy (char *, char const *);
size_t mes_strcspn (char const *, char const *); char *mes_strdup (char const *); size_t mes_strlen (char const *);
char *mes_strncat (char *, char const *, size_t); int mes_strncmp (char const *, char const *, size_t);
char *mes_strncpy (char *, char const *, size_t); char *mes_strpbrk (char const *, char const *);
char *mes_strrchr (char const *, int); size_t mes_strspn (char const *, char const *);
char *mes_strstr (char const *, char const *); char *mes_strlwr (char *); char *mes_strupr (char *);
char *mes_index (char const *, int); char *mes_rindex (char const *, int);
int mes_bcmp (void const *, void const *, size_t); void mes_bcopy (void const *, void *, size_t);
void mes_bzero (void *, size_t); char *mes_strerror (int);

static int alpha;               /* alphabet of this case */
static unsigned char ch (void)
{
  switch (alpha)
    {
    case 0: return "ab"[h_r (2)];
    case 1: return 1 + h_r (255);
    case 2: return "a\xff\x80\x7f"[h_r (4)];
    case 3: return 'a' + h_r (4);
    default: return "ABZaz@[`{\xe0\xc0"[h_r (11)];
    }
}
static size_t len (void)
{
  switch (h_r (8))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return h_r (4);
    case 3: return h_r (300);
    case 4: { static int e[] = {7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025}; return e[h_r (24)]; }
    default: return h_r (20);
    }
}
/* An exactly sized block: no byte after it may be touched. `off' varies the alignment. */
typedef struct { unsigned char *base, *p; size_t n; } blk;
static blk mk (size_t n)
{
  blk b; size_t off = h_r (9);
  b.base = malloc (off + n + (n + off == 0)); b.p = b.base + off; b.n = n;
  memset (b.base, 0xA5, off);
  return b;
}
static blk mkstr (size_t n)     /* NUL terminated string of length n */
{
  blk b = mk (n + 1);
  for (size_t i = 0; i < n; i++) b.p[i] = ch ();
  b.p[n] = 0;
  return b;
}
static blk mkmem (size_t n, int nul)
{
  blk b = mk (n);
  for (size_t i = 0; i < n; i++) b.p[i] = (nul && !h_r (4)) ? 0 : ch ();
  return b;
}
static blk dup_of (blk a, int mutate)
{
  blk b = mk (a.n);
  memcpy (b.p, a.p, a.n);
  if (mutate && a.n > 1) { size_t i = h_r (4) ? h_r (a.n - 1) : a.n - 2; b.p[i] = ch (); }
  return b;
}
static void fr (blk b) { free (b.base); }
static int sgn (int x) { return x < 0 ? -1 : x > 0; }
static long idx (void const *p, void const *base) { return p ? (char const *) p - (char const *) base : -1; }
#define CMP(key, cond, ...) do { if (!(cond)) h_bad (key, __VA_ARGS__); } while (0)

int main (int argc, char **argv)
{
  h_init (argc, argv);
  for (long it = 0; it < h_count_arg; it++)
    {
      alpha = h_r (5);
      int f = h_r (26);
      uint64_t sg = f;
      switch (f)
        {
        case 0:
          {
            blk a = mkstr (len ());
            h_op ("strlen %s", h_hex (a.p, a.n));
            size_t r = mes_strlen (a.p);
            CMP ("strlen", r == strlen (a.p), "strlen(%s)=%zu", h_hex (a.p, a.n), r);
            sg = h_hash (a.p, a.n, f + 100); fr (a); h_count ("strlen", 1); break;
          }
        case 1: case 2:
          {
            blk a = mkstr (len ()), b = h_r (2) ? dup_of (a, h_r (2)) : mkstr (len ());
            size_t n = h_r (3) ? len () : a.n - 1 + h_r (3);
            if (f == 1)
              {
                h_op ("strcmp %s %s", h_hex (a.p, a.n), h_hex (b.p, b.n));
                int r = mes_strcmp (a.p, b.p);
                CMP ("strcmp", sgn (r) == sgn (strcmp (a.p, b.p)), "strcmp(%s,%s)=%d", h_hex (a.p, a.n), h_hex (b.p, b.n), r);
                h_count ("strcmp", 1);
              }
            else
              {
                h_op ("strncmp %s %s %zu", h_hex (a.p, a.n), h_hex (b.p, b.n), n);
                int r = mes_strncmp (a.p, b.p, n);
                CMP ("strncmp", sgn (r) == sgn (strncmp (a.p, b.p, n)), "strncmp(%s,%s,%zu)=%d", h_hex (a.p, a.n), h_hex (b.p, b.n), n, r);
                h_count ("strncmp", 1);
              }
            sg = h_hash (a.p, a.n, h_hash (b.p, b.n, f * 1000 + n)); fr (a); fr (b); break;
          }
        case 3:                 /* strncmp on unterminated arrays */
          {
            size_t n = len (); blk a = mkmem (n, 0), b = dup_of (a, h_r (2));
            h_op ("strncmp-array %s %s %zu", h_hex (a.p, a.n), h_hex (b.p, b.n), n);
            int r = mes_strncmp (a.p, b.p, n);
            CMP ("strncmp", sgn (r) == sgn (strncmp (a.p, b.p, n)), "strncmp(%s,%s,%zu)=%d", h_hex (a.p, a.n), h_hex (b.p, b.n), n, r);
            sg = h_hash (a.p, a.n, h_hash (b.p, b.n, f)); fr (a); fr (b); h_count ("strncmp", 1); break;
          }
        case 4: case 5:
          {
            size_t n = len (); blk a = mkmem (n, 1), b = h_r (2) ? dup_of (a, 1) : mkmem (n, 1);
            h_op ("memcmp %s %s %zu", h_hex (a.p, n), h_hex (b.p, n), n);
            int r = mes_memcmp (a.p, b.p, n), r2 = mes_bcmp (a.p, b.p, n);
            CMP ("memcmp", sgn (r) == sgn (memcmp (a.p, b.p, n)), "memcmp(%s,%s,%zu)=%d", h_hex (a.p, n), h_hex (b.p, n), n, r);
            CMP ("bcmp", !r2 == !memcmp (a.p, b.p, n), "bcmp(%s,%s,%zu)=%d", h_hex (a.p, n), h_hex (b.p, n), n, r2);
            sg = h_hash (a.p, n, h_hash (b.p, n, f)); fr (a); fr (b); h_count ("memcmp", 1); break;
          }
        case 6:
          {
            size_t n = len (); blk a = mkmem (n, 1);
            int c = n && h_r (3) ? a.p[h_r (n)] : ch (); if (!h_r (6)) c = 0;
            if (h_r (4) == 0) c |= 0x100 * h_r (3); else if (h_r (4) == 0) c = (signed char) c;
            void *e = memchr (a.p, c, n);
            size_t nn = e && !h_r (3) ? n + h_r (40) : n;       /* reads must stop at the match */
            h_op ("memchr %s %d %zu", h_hex (a.p, n), c, nn);
            void *r = mes_memchr (a.p, c, nn);
            CMP ("memchr", r == e, "memchr(%s,%d,%zu)=%ld expected %ld", h_hex (a.p, n), c, nn, idx (r, a.p), idx (e, a.p));
            sg = h_hash (a.p, n, f + c * 31); fr (a); h_count ("memchr", 1); break;
          }
        case 7: case 8:
          {
            size_t n = len (); blk a = mkmem (n, 1), d = mk (n);
            h_op ("%s %zu", f == 7 ? "memcpy" : "memset", n);
            void *r; int c = h_r (512) - 128;
            if (f == 7) { r = mes_memcpy (d.p, a.p, n); CMP ("memcpy", r == d.p && !memcmp (d.p, a.p, n), "memcpy n=%zu", n); h_count ("memcpy", 1); }
            else
              {
                r = mes_memset (d.p, c, n);
                int ok = r == d.p; for (size_t i = 0; i < n; i++) ok &= d.p[i] == (unsigned char) c;
                CMP ("memset", ok, "memset c=%d n=%zu", c, n); h_count ("memset", 1);
                d = d; mes_bzero (d.p, n); for (size_t i = 0; i < n; i++) ok &= d.p[i] == 0;
                CMP ("bzero", ok, "bzero n=%zu", n);
              }
            sg = h_hash (a.p, n, f); fr (a); fr (d); break;
          }
        case 9: case 10:        /* overlapping moves: whole image compared */
          {
            size_t t = 1 + len (), n = h_r (t + 1); size_t s = h_r (t - n + 1), d = h_r (t - n + 1);
            if (!h_r (3)) { d = s + h_r (3) - 1; if (d > t - n || (long) d < 0) d = s; }
            blk a = mkmem (t, 1), b = dup_of (a, 0);
            h_op ("%s total=%zu src=%zu dst=%zu n=%zu", f == 9 ? "memmove" : "bcopy", t, s, d, n);
            if (f == 9) { void *r = mes_memmove (a.p + d, a.p + s, n); CMP ("memmove", r == a.p + d, "memmove return"); }
            else mes_bcopy (a.p + s, a.p + d, n);
            memmove (b.p + d, b.p + s, n);
            CMP (f == 9 ? "memmove" : "bcopy", !memcmp (a.p, b.p, t), "total=%zu src=%zu dst=%zu n=%zu got %s want %s", t, s, d, n, h_hex (a.p, t), h_hex (b.p, t));
            sg = t * 1000003 + s * 1009 + d * 17 + n; fr (a); fr (b); h_count (f == 9 ? "memmove" : "bcopy", 1); break;
          }
        case 11: case 12: case 13:
          {
            if (h_r (2)) alpha = 0;
            blk a = mkstr (len ()), b = mkstr (h_r (3) ? h_r (5) : len ());
            if (!h_r (3) && a.n > 1) { fr (b); size_t s = h_r (a.n), l = h_r (a.n - s); b = mk (l + 1); memcpy (b.p, a.p + s, l); b.p[l] = 0; }
            if (f == 11)
              {
                h_op ("strstr %s %s", h_hex (a.p, a.n), h_hex (b.p, b.n));
                char *r = mes_strstr (a.p, b.p), *e = strstr (a.p, b.p);
                CMP ("strstr", r == e, "strstr(%s,%s)=%ld expected %ld", h_hex (a.p, a.n), h_hex (b.p, b.n), idx (r, a.p), idx (e, a.p));
                h_count ("strstr", 1);
              }
            else if (f == 12)
              {
                size_t n = len (); blk m = mkmem (n, 1); size_t k = h_r (6); blk q = mkmem (k, 1);
                if (h_r (2) && k <= n && n) { size_t s = h_r (n - k + 1); memcpy (q.p, m.p + s, k); }
                h_op ("memmem %s %s", h_hex (m.p, n), h_hex (q.p, k));
                void *r = mes_memmem (m.p, n, q.p, k), *e = memmem (m.p, n, q.p, k);
                CMP ("memmem", r == e, "memmem(%s,%s)=%ld expected %ld", h_hex (m.p, n), h_hex (q.p, k), idx (r, m.p), idx (e, m.p));
                fr (m); fr (q); h_count ("memmem", 1);
              }
            else
              {
                h_op ("strspn %s %s", h_hex (a.p, a.n), h_hex (b.p, b.n));
                size_t r = mes_strspn (a.p, b.p), r2 = mes_strcspn (a.p, b.p); char *r3 = mes_strpbrk (a.p, b.p);
                CMP ("strspn", r == strspn (a.p, b.p), "strspn(%s,%s)=%zu", h_hex (a.p, a.n), h_hex (b.p, b.n), r);
                CMP ("strcspn", r2 == strcspn (a.p, b.p), "strcspn(%s,%s)=%zu", h_hex (a.p, a.n), h_hex (b.p, b.n), r2);
                CMP ("strpbrk", r3 == strpbrk (a.p, b.p), "strpbrk(%s,%s)=%ld expected %ld", h_hex (a.p, a.n), h_hex (b.p, b.n), idx (r3, a.p), idx (strpbrk (a.p, b.p), a.p));
                h_count ("strspn", 1);
              }
            sg = h_hash (a.p, a.n, h_hash (b.p, b.n, f)); fr (a); fr (b); break;
          }
        case 14: case 15:
          {
            blk a = mkstr (len ());
            int c = a.n > 1 && h_r (3) ? a.p[h_r (a.n)] : ch (); if (!h_r (5)) c = 0;
            if (!h_r (3)) c = (signed char) c;
            h_op ("%s %s %d", f == 14 ? "strchr" : "strrchr", h_hex (a.p, a.n), c);
            char *r, *e, *r2;
            if (f == 14) { r = mes_strchr (a.p, c); r2 = mes_index (a.p, c); e = strchr (a.p, c); }
            else { r = mes_strrchr (a.p, c); r2 = mes_rindex (a.p, c); e = strrchr (a.p, c); }
            CMP (f == 14 ? "strchr" : "strrchr", r == e, "(%s,%d)=%ld expected %ld", h_hex (a.p, a.n), c, idx (r, a.p), idx (e, a.p));
            CMP (f == 14 ? "index" : "rindex", r2 == e, "(%s,%d)=%ld expected %ld", h_hex (a.p, a.n), c, idx (r2, a.p), idx (e, a.p));
            sg = h_hash (a.p, a.n, f + c * 31); fr (a); h_count (f == 14 ? "strchr" : "strrchr", 1); break;
          }
        case 16: case 17: case 18: case 19:
          {
            size_t k = len (), n = len (); blk b = mkstr (len ());
            if (f == 18 || f == 19) if (!h_r (3)) n = b.n - 1 + h_r (3);
            if (f >= 18 && !h_r (3)) { fr (b); b = mkmem (n, 0); }   /* unterminated source of n bytes */
            size_t bl = strnlen (b.p, b.n);
            size_t need = f == 16 ? bl + 1 : f == 17 ? k + bl + 1 : f == 18 ? n : k + (bl < n ? bl : n) + 1;
            blk d = mk (need), e = mk (need);
            memset (d.p, 0x5a, need); 
            if (f == 17 || f == 19) { for (size_t i = 0; i < k; i++) d.p[i] = ch (); d.p[k] = 0; }
            memcpy (e.p, d.p, need);
            static char *nm[] = { "strcpy", "strcat", "strncpy", "strncat" };
            h_op ("%s dst=%s src=%s n=%zu", nm[f - 16], f & 1 ? h_hex (d.p, k) : "", h_hex (b.p, b.n), n);
            char *r = 0;
            switch (f)
              {
              case 16: r = mes_strcpy (d.p, b.p); strcpy (e.p, b.p); break;
              case 17: r = mes_strcat (d.p, b.p); strcat (e.p, b.p); break;
              case 18: r = mes_strncpy (d.p, b.p, n); strncpy (e.p, b.p, n); break;
              case 19: r = mes_strncat (d.p, b.p, n); strncat (e.p, b.p, n); break;
              }
            CMP (nm[f - 16], r == (char *) d.p && !memcmp (d.p, e.p, need), "src=%s n=%zu got %s want %s", h_hex (b.p, b.n), n, h_hex (d.p, need), h_hex (e.p, need));
            sg = h_hash (b.p, b.n, f + n * 131 + k * 1009); fr (b); fr (d); fr (e); h_count (nm[f - 16], 1); break;
          }
        case 20: case 21:
          {
            if (h_r (2)) alpha = 4;
            blk a = mkstr (len ()), b = dup_of (a, 0);
            h_op ("%s %s", f == 20 ? "strlwr" : "strupr", h_hex (a.p, a.n));
            char *r = f == 20 ? mes_strlwr (a.p) : mes_strupr (a.p);
            for (size_t i = 0; i < b.n; i++)
              if (f == 20 && b.p[i] >= 'A' && b.p[i] <= 'Z') b.p[i] += 32; else if (f == 21 && b.p[i] >= 'a' && b.p[i] <= 'z') b.p[i] -= 32;
            CMP (f == 20 ? "strlwr" : "strupr", r == (char *) a.p && !memcmp (a.p, b.p, a.n), "got %s want %s", h_hex (a.p, a.n), h_hex (b.p, b.n));
            sg = h_hash (a.p, a.n, f); fr (a); fr (b); h_count ("strcase", 1); break;
          }
        case 22: case 23:
          {
            blk a = mkstr (h_r (40));
            h_op ("strdup %s", h_hex (a.p, a.n));
            char *r = mes_strdup (a.p);
            CMP ("strdup", r && r != (char *) a.p && !strcmp (r, a.p), "strdup(%s)", h_hex (a.p, a.n));
            sg = h_hash (a.p, a.n, f); fr (a); h_count ("strdup", 1); break;
          }
        default:
          {
            int e = h_range (-3, 45);
            h_op ("strerror %d", e);
            char *r = mes_strerror (e);
            /* every call yields a readable, non-empty message; known numbers give distinct ones */
            CMP ("strerror", r && *r, "strerror(%d)", e);
            if (e > 0 && e < 39) CMP ("strerror", strcmp (r, mes_strerror (e + 1)), "strerror(%d) same as %d", e, e + 1);
            sg = 7000 + e; h_count ("strerror", 1); break;
          }
        }
      h_sig (sg);
      h_count ("cases", 1);
      if (it < 6) h_sample ("%s", h_state);
    }
  return h_done ();
}
