/* C32: the division helpers, compiled from the tree, against native arithmetic.
   Built twice: hosted 64 bit with sanitizers (WORD = 64), and free-standing
   32 bit (WORD = 32) where the program talks to the kernel directly. */
#ifndef BARE
#include "h.h"
#include <setjmp.h>
#include <signal.h>
#define COUNT h_count_arg
#else
typedef unsigned long long uint64_t;
static uint64_t h_s[2];
static uint64_t h_next (void)
{ uint64_t a = h_s[0], b = h_s[1]; h_s[0] = b; a ^= a << 23; h_s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return h_s[1] + b; }
static long sys3 (long n, long a, long b, long c) { long r; __asm__ volatile ("int $0x80" : "=a" (r) : "a" (n), "b" (a), "c" (b), "d" (c) : "memory"); return r; }
#define LONG_MAX 0x7fffffffL
#define LONG_MIN (-LONG_MAX - 1)
static unsigned slen (char const *s) { unsigned n = 0; while (s[n]) n++; return n; }
static void put (char const *s) { sys3 (4, 1, (long) s, slen (s)); }
static void putx (unsigned long u) { char b[9]; for (int i = 7; i >= 0; i--) { b[i] = "0123456789abcdef"[u & 15]; u >>= 4; } b[8] = 0; put (b); }
#endif
long __mesabi_imod (long a, long b); long __mesabi_idiv (long a, long b);
unsigned long __mesabi_umod (unsigned long a, unsigned long b); unsigned long __mesabi_udiv (unsigned long a, unsigned long b);
unsigned long __mesabi_uldiv (unsigned long a, unsigned long b, unsigned long *r);
#ifndef BARE
long long __divdi3 (long long a, long long b); long long __moddi3 (long long a, long long b);
unsigned long long __udivdi3 (unsigned long long a, unsigned long long b); unsigned long long __umoddi3 (unsigned long long a, unsigned long long b);
unsigned long long __lshrdi3 (unsigned long long a, long b); long long __ashldi3 (long long a, long b); long long __ashrdi3 (long long a, long b);
long long t_divdi3 (long long a, long long b); long long t_moddi3 (long long a, long long b);
unsigned long long t_udivdi3 (unsigned long long a, unsigned long long b); unsigned long long t_umoddi3 (unsigned long long a, unsigned long long b);
unsigned long long t_lshrdi3 (unsigned long long a, long b); long long t_ashldi3 (long long a, long b); long long t_ashrdi3 (long long a, long b);
char **mes_environ; int __mes_debug (void) { return 0; } int eputs (char const *s) { return 0; }
static jmp_buf jb; static int want_zero;
int __raise (int sig) { if (want_zero) longjmp (jb, sig); h_bad ("spurious-sigfpe", "SIGFPE raised during %s", h_state); longjmp (jb, -1); }
#else
int __raise (int sig) { put ("B spurious-sigfpe\tSIGFPE raised\n"); sys3 (1, 3, 0, 0); return 0; }
int __divsi3 (int, int); int __modsi3 (int, int); int __udivsi3 (int, int); int __umodsi3 (int, int);
#endif
#define R(n) ((unsigned) (h_next () >> 11) % (unsigned) (n))
#define W (8 * sizeof (long))
static unsigned long val (void)
{
  unsigned long x;
  switch (R (6))
    {
    case 0: { static long e[] = {0, 1, 2, 3, -1, -2, -3, 5, 7, 10, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, LONG_MIN / 2, LONG_MAX / 2 + 1}; return e[R (16)]; }
    case 1: x = 1UL << (R (W)); return x + (long) R (3) - 1;
    case 2: x = (1UL << (R (W))) + (1UL << (R (W))); return R (2) ? x : -x;
    case 3: return (unsigned long) h_next () >> (R (W));
    case 4: return (unsigned long) ((long) h_next () >> (R (W)));
    default: return (long) R (200) - 100;
    }
}
#ifndef BARE
#define EQ(name, got, want) do { h_count (name, 1); h_count ("cases", 1); unsigned long g_ = (got), w_ = (want); if (g_ != w_) h_bad (name, "%s (%#lx, %#lx) = %#lx, expected %#lx", name, a, b, g_, w_); } while (0)
#else
static long ncase;
#define EQ(name, got, want) do { ncase++; unsigned long g_ = (got), w_ = (want); if (g_ != w_) { put ("B 32:" name "\t" name " ("); putx (a); put (", "); putx (b); put (") = "); putx (g_); put (", expected "); putx (w_); put ("\n"); if (bad++ > 5) sys3 (1, 0, 0, 0); } } while (0)
#endif
#ifndef BARE
int main (int argc, char **argv)
{
  h_init (argc, argv);
#else
#ifndef SEED
#define SEED 1
#endif
void _start (void)
{
  int bad = 0;
  h_s[0] = SEED * 0x9E3779B97F4A7C15ULL + 99; h_s[1] = SEED ^ 0xD1B54A32D192ED03ULL;
#endif
  for (long it = 0; it < COUNT; it++)
    {
      unsigned long a = val (), b = val (), r = 0;
      if (R (4) == 0) { unsigned long k = val (); a = b * k + R (3) - 1; }
#ifndef BARE
      h_op ("div %#lx %#lx", a, b);
      if (b) h_sig (h_hash (&a, sizeof a, b));
      if (!b)
        {
          want_zero = 1;
          int s = setjmp (jb);
          if (!s) { if (it & 1) __mesabi_idiv (a, b); else __mesabi_udiv (a, b); h_bad ("division-by-zero", "dividing %#lx by zero does not raise SIGFPE", a); }
          else { h_count ("division-by-zero", 1); h_count ("cases", 1); if (s != SIGFPE) h_bad ("division-by-zero", "signal %d", s); }
          want_zero = 0;
          continue;
        }
      if (setjmp (jb)) continue;
#else
      if (!b) continue;
#endif
      EQ ("__mesabi_udiv", __mesabi_udiv (a, b), a / b);
      EQ ("__mesabi_umod", __mesabi_umod (a, b), a % b);
      EQ ("__mesabi_uldiv", __mesabi_uldiv (a, b, &r), a / b);
      EQ ("__mesabi_uldiv-rem", r, a % b);
      if (!((long) a == LONG_MIN && (long) b == -1))
        {
          EQ ("__mesabi_idiv", __mesabi_idiv (a, b), (long) a / (long) b);
          EQ ("__mesabi_imod", __mesabi_imod (a, b), (long) a % (long) b);
#ifdef BARE
          EQ ("__divsi3", __divsi3 (a, b), (long) a / (long) b);
          EQ ("__modsi3", __modsi3 (a, b), (long) a % (long) b);
          EQ ("__udivsi3", __udivsi3 (a, b), a / b);
          EQ ("__umodsi3", __umodsi3 (a, b), a % b);
#else
          EQ ("__divdi3", __divdi3 (a, b), (long) a / (long) b);
          EQ ("__moddi3", __moddi3 (a, b), (long) a % (long) b);
          EQ ("__divdi3-tcc", t_divdi3 (a, b), (long) a / (long) b);
          EQ ("__moddi3-tcc", t_moddi3 (a, b), (long) a % (long) b);
#endif
        }
#ifndef BARE
      EQ ("__udivdi3", __udivdi3 (a, b), a / b); EQ ("__umoddi3", __umoddi3 (a, b), a % b);
      EQ ("__udivdi3-tcc", t_udivdi3 (a, b), a / b); EQ ("__umoddi3-tcc", t_umoddi3 (a, b), a % b);
      int s = R (64); b = s;
      EQ ("__lshrdi3", __lshrdi3 (a, s), a >> s); EQ ("__ashldi3", __ashldi3 (a, s), a << s); EQ ("__ashrdi3", __ashrdi3 (a, s), (long) a >> s);
      EQ ("__lshrdi3-tcc", t_lshrdi3 (a, s), a >> s); EQ ("__ashldi3-tcc", t_ashldi3 (a, s), a << s); EQ ("__ashrdi3-tcc", t_ashrdi3 (a, s), (long) a >> s);
      h_sample ("%#lx / %#lx, shift %d", a, b, s);
#endif
    }
#ifndef BARE
  return h_done ();
#else
  put ("D "); putx (ncase); put ("\nEND\n");
  sys3 (1, 0, 0, 0);
#endif
}
