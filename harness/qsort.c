/* C22: qsort.  The array is an exactly sized heap block (ASan), the comparison
   function itself is a monitor: it accepts only pointers to elements. */
#define _GNU_SOURCE
#include "h.h"
void mes_qsort (void *, size_t, size_t, int (*) (void const *, void const *));
static char *A; static size_t N, S; static int mode; static long calls, depthmark;
static char *low; 
static int keycmp (unsigned char const *a, unsigned char const *b)
{
  size_t k = S < 4 ? S : 4;
  switch (mode)
    {
    case 0: return memcmp (a, b, S);
    case 1: return memcmp (b, a, S);
    case 2: return memcmp (a, b, 1);               /* many equal keys, distinct payload */
    case 3: return memcmp (a, b, k) < 0 ? -1000000 : memcmp (a, b, k) > 0 ? 77 : 0;
    case 4: return (a[0] & 1) - (b[0] & 1);
    case 5: return 0;
    case 6: { int x = 0, y = 0; memcpy (&x, a, k); memcpy (&y, b, k); return x < y ? INT_MIN : x > y ? INT_MAX : 0; }
    }
  return 0;
}
static int cmp (void const *a, void const *b)
{
  calls++;
  char here; if (&here < low) low = &here;
  long i = (char *) a - A, j = (char *) b - A;
  if (i < 0 || j < 0 || i >= (long) (N * S) || j >= (long) (N * S) || i % S || j % S)
    { h_bad ("comparison-pointer", "qsort (count %zu, size %zu): comparison called with offsets %ld and %ld", N, S, i, j); return 0; }
  return keycmp (a, b);
}
static int full (void const *a, void const *b) { return memcmp (a, b, S); }
int main (int argc, char **argv)
{
  h_init (argc, argv);
  for (long it = 0; it < h_count_arg; it++)
    {
      S = (size_t[]) {1, 1, 2, 3, 4, 4, 8, 8, 12, 16, 24, 40, 100}[h_r (13)];
      switch (h_r (8)) { case 0: N = h_r (4); break; case 1: N = h_r (4); break; case 2: N = h_r (40); break; case 3: N = h_r (300); break; default: N = h_r (12); }
      if (!h_r (2000)) { N = 300 + h_r (3000); S = S > 16 ? 16 : S; }
      if (!h_r (20)) { S = (size_t[]) {32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4100}[h_r (16)]; N = N > 12 ? h_r (12) : N; }
      mode = h_r (7);
      int pat = h_r (9), span = (int[]) {1, 2, 3, 10, 256}[h_r (5)];
      size_t off = h_r (9);
      char *base = malloc (off + N * S + (off + N * S == 0));
      A = base + off;
      memset (base, 0x5a, off);
      for (size_t i = 0; i < N * S; i++) A[i] = h_r (span);
      qsort (A, 0, 0, full);
      if (pat == 0) qsort (A, N, S, cmp);
      if (pat == 1) { mode ^= 1; qsort (A, N, S, cmp); mode ^= 1; mode = mode > 1 ? mode : mode; }
      if (pat == 2 && N) { qsort (A, N, S, cmp); size_t i = h_r (N), j = h_r (N); for (size_t k = 0; k < S; k++) { char t = A[i * S + k]; A[i * S + k] = A[j * S + k]; A[j * S + k] = t; } }
      if (pat == 3) for (size_t i = 1; i < N; i++) memcpy (A + i * S, A, S);
      if (pat == 4) for (size_t i = 0; i < N; i++) { memset (A + i * S, 0, S); A[i * S] = i < N / 2 ? i : N - i; }
      char *orig = malloc (N * S + 1), *copy = malloc (N * S + 1);
      memcpy (orig, A, N * S); memcpy (copy, A, N * S);
      calls = 0;
      h_count (S > 255 ? "wide" : N > 300 ? "long" : "usual", 1); h_op ("qsort count %zu size %zu mode %d pattern %d span %d", N, S, mode, pat, span);
      low = (char *) &S; char mark; low = &mark;
      mes_qsort (A, N, S, cmp);
      h_count ("cases", 1); h_count ("comparisons", calls);
      for (size_t i = 1; i < N; i++)
        if (keycmp (A + (i - 1) * S, A + i * S) > 0)
          { h_bad ("order", "qsort (count %zu, size %zu, mode %d) of %s leaves element %zu greater than its successor: %s", N, S, mode, h_hex (orig, N * S), i - 1, h_hex (A, N * S)); break; }
      char *sorted = malloc (N * S + 1); memcpy (sorted, A, N * S);
      qsort (sorted, N, S, full); qsort (copy, N, S, full);
      if (memcmp (sorted, copy, N * S)) h_bad ("permutation", "qsort (count %zu, size %zu, mode %d) of %s is not a permutation: %s", N, S, mode, h_hex (orig, N * S), h_hex (A, N * S));
      for (size_t i = 0; i < off; i++) if (base[i] != 0x5a) { h_bad ("before", "qsort wrote before the array"); break; }
      if (N > 1) h_sig (h_hash (orig, N * S, mode * 1000 + S));
      h_count (N < 2 ? "trivial" : "nontrivial", 1);
      h_sample ("count %zu size %zu mode %d: %s -> %s", N, S, mode, h_hex (orig, N * S > 40 ? 40 : N * S), h_hex (A, N * S > 40 ? 40 : N * S));
      free (orig); free (copy); free (sorted); free (base);
    }
  return h_done ();
}
