/* Runs a script of calls, set points and jumps (argument 1: a file) and writes
   what happens.  Compiled by gcc with the host C library (the oracle), by gcc
   and by MesCC with the Mes C library.  Ops: Cv call by frame shape v; Sn set
   a point by shape n and go on inside; Tj,v jump to the j-th active point from
   the innermost; E leave; Ln,d loop of n jumps from depth d; R: go on inside
   once more after a landing, else leave.  */
#include <fcntl.h>
#include <setjmp.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#ifdef __MESC__
#define volatile
#endif
#ifdef HOSTED
int sys_write (int fd, char *p, long n) { return write (fd, p, n); }
#else
ssize_t _write (int fd, void const *p, size_t n);
int sys_write (int fd, char *p, long n) { return _write (fd, p, n); }
#endif

char line[70000];
int line_n;
char *script;
int at;
void *tab[500];
int top;
int serial;
int depth;
long budget;

void out_flush (void) { if (line_n) sys_write (1, line, line_n); line_n = 0; }
void outc (int c) { line[line_n] = c; line_n = line_n + 1; if (line_n > 69000) out_flush (); }
void outs (char *s) { while (*s) { outc (*s); s = s + 1; } }
void outn (long x)
{
  char t[24]; int k; unsigned long u;
  outc (' ');
  u = x; k = 0;
  if (x < 0) { outc ('-'); u = 0 - u; }
  t[k] = '0' + u % 10; k = k + 1; u = u / 10;
  while (u) { t[k] = '0' + u % 10; k = k + 1; u = u / 10; }
  while (k) { k = k - 1; outc (t[k]); }
}
int num (void)
{
  int v; int neg;
  v = 0; neg = 0;
  if (script[at] == '-') { neg = 1; at = at + 1; }
  while (script[at] >= '0' && script[at] <= '9') { v = v * 10 + (script[at] - '0'); at = at + 1; }
  if (script[at] == ',') at = at + 1;
  return neg ? 0 - v : v;
}
void body (void);

long frame1 (long a, long b) { long x; long y; x = a * 3 + b; y = x * a; body (); return x + y + a + b; }
int frame2 (char c) { char buf[100]; int i; i = 0; while (i < 100) { buf[i] = c + i; i = i + 1; } body (); i = 0; while (i < 100 && buf[i] == (char) (c + i)) i = i + 1; return i + c; }
long frame3 (long a, long b, long c, long d, long e, long f, long g, long h) { body (); return a + 2 * b + 3 * c + 5 * d + 7 * e + 11 * f + 13 * g + 17 * h; }
struct st { int i; char c; long l; char *p; };
long frame4 (struct st *s) { struct st t; t.i = s->i + 1; t.c = s->c; t.l = s->l * 2; t.p = s->p; body (); return t.i + t.c + t.l + (t.p == s->p) + s->i; }
long frame5 (int n) { long r; if (n > 0) { r = frame5 (n - 1); return r * 2 + n; } body (); return 1; }
void frame6 (void) { body (); }
long (*fp) (long, long);
long frame7 (long a) { long i; long s; s = a; for (i = 0; i < 3; i = i + 1) { s = s + i * a; if (i == 1) body (); } return s; }
/* Keeps many values over a call, so that a compiler has them in registers. */
long frame8 (long a, long b)
{
  long c; long d; long e; long f; long g;
  c = a + b; d = a - b; e = a * b; f = a ^ b; g = a | b;
  body ();
  return a * 1 + b * 3 + c * 5 + d * 7 + e * 11 + f * 13 + g * 17;
}

void call (int v)
{
  struct st s;
  serial = serial + 1;
  if (v == 1) { outs ("f1"); outc ('\n'); outn (frame1 (serial, 7)); }
  else if (v == 2) { outs ("f2\n"); outn (frame2 ('A' + serial % 20)); }
  else if (v == 3) { outs ("f3\n"); outn (frame3 (serial, 2, 3, 4, 5, 6, 7, serial + 8)); }
  else if (v == 4) { s.i = serial; s.c = 'x'; s.l = serial * 1000; s.p = line; outs ("f4\n"); outn (frame4 (&s)); outn (s.i); }
  else if (v == 5) { outs ("f5\n"); outn (frame5 (serial % 30)); }
  else if (v == 6) { outs ("f6\n"); frame6 (); }
  else if (v == 7) { outs ("f7\n"); outn (frame7 (serial)); }
  else if (v == 8) { outs ("f8\n"); outn (frame8 (serial, 5)); }
  else { fp = frame1; outs ("fp\n"); outn (fp (serial, 9) + serial * 0); }
  outs (" back "); outn (v); outc ('\n');
}

void landed (int me, long val) { top = me + 1; outs ("landed"); outn (me); outn (val); outs (" top"); outn (top); outc ('\n'); }
void enter (int me) { outs ("set"); outn (me); outc ('\n'); }
void leave (int me) { top = me; outs ("left"); outn (me); outc ('\n'); }
int again (void) { if (script[at] == 'R') { at = at + 1; return 1; } return 0; }

void set0 (int me, long mark)
{
  jmp_buf b; volatile long v; volatile int n; long keep; char c[20];
  keep = mark * 3; v = mark; n = 0; strcpy (c, "before");
  tab[me] = b; top = me + 1;
  if (setjmp (b) == 0) { enter (me); v = mark + 1; body (); v = mark + 2; }
  else { n = n + 1; landed (me, 0); outn (v); outn (keep); outn (n); outs (c); if (n < 5 && again ()) { v = mark + 10; top = me + 1; body (); } }
  outn (v); outn (keep); outn (n); outs (c);
  leave (me);
}
void set1 (int me, long mark)
{
  jmp_buf b; volatile long v; long keep;
  keep = mark * 5; v = 0;
  tab[me] = b; top = me + 1;
  switch (setjmp (b))
    {
    case 0: enter (me); v = 1; body (); break;
    case 1: landed (me, 1); v = v + 10; break;
    case 2: landed (me, 2); v = v + 100; if (again ()) body (); break;
    case 255: landed (me, 255); break;
    case 256: landed (me, 256); break;
    default: landed (me, -999); v = v + 1000; if (again ()) body ();
    }
  outn (v); outn (keep);
  leave (me);
}
void set2 (int me, long mark)
{
  jmp_buf b; volatile int r; volatile long count;
  count = mark;
  tab[me] = b; top = me + 1;
  r = setjmp (b);
  top = me + 1;
  count = count + 1;
  if (r == 0) { enter (me); body (); }
  else { landed (me, r); if (count < mark + 8 && again ()) body (); }
  outn (count); outn (mark);
  leave (me);
}
int set3 (int me, long mark)
{
  jmp_buf b; jmp_buf c; volatile int w; long keep;
  keep = mark; w = 0;
  tab[me] = b; top = me + 1;
  if (!setjmp (b))
    {
      tab[me + 1] = c; top = me + 2;
      if (setjmp (c)) { landed (me + 1, w); w = w + 1; top = me + 1; if (w < 4 && again ()) body (); }
      else { enter (me); w = 1; body (); }
      outs ("inner"); outn (w); outn (keep); outc ('\n');
    }
  else { landed (me, w); top = me; }
  outn (w); outn (keep);
  leave (me);
  return 4;
}
void set4 (int me, long mark)
{
  jmp_buf b; volatile int round;
  round = 0;
  tab[me] = b; top = me + 1;
  /* Every round sets the point anew. */
  while (round < 4)
    {
      if (setjmp (b)) { landed (me, round); round = round + 1; top = me + 1; }
      else { enter (me); round = round + 1; body (); }
      if (!again ()) break;
    }
  outn (round); outn (mark);
  leave (me);
}
jmp_buf global;
struct ctx { int a; jmp_buf env; int z; };
void set5 (int me, long mark)
{
  struct ctx x;
  x.a = mark + 1; x.z = mark + 2;
  tab[me] = x.env; top = me + 1;
  if (setjmp (x.env)) { landed (me, 5); }
  else { enter (me); body (); }
  outn (x.a); outn (x.z);
  leave (me);
}

void set (int n)
{
  serial = serial + 1;
  if (top > 400) return;
  if (n == 0) set0 (top, serial);
  else if (n == 1) set1 (top, serial);
  else if (n == 2) set2 (top, serial);
  else if (n == 3) outn (set3 (top, serial));
  else if (n == 4) set4 (top, serial);
  else set5 (top, serial);
}

int deep (int d, int v)
{
  char pad[40];
  pad[0] = d; pad[39] = v;
  if (d > 0) return deep (d - 1, v) + pad[0] + pad[39];
  longjmp (global, v);
  return 0;
}
void loop (int n, int d)
{
  volatile long sum; volatile int i; volatile int r;
  sum = 0; i = 0;
  while (i < n)
    {
      r = setjmp (global);
      if (r == 0) { deep (d, i % 5 - 2); sum = sum + 1000000; }
      sum = sum * 3 + r; sum = sum & 0xffffff;
      i = i + 1;
    }
  outs ("loop"); outn (sum); outn (i); outc ('\n');
}

void body (void)
{
  int op; int j; int v;
  depth = depth + 1;
  while (script[at])
    {
      op = script[at];
      at = at + 1;
      if (op == 'E') return;
      else if (op == 'C') call (num ());
      else if (op == 'S') set (num ());
      else if (op == 'L') { j = num (); loop (j, num ()); }
      else if (op == 'T')
        {
          j = num (); v = num ();
          if (top > 0)
            {
              j = top - 1 - j % top;
              outs ("jump"); outn (j); outn (v); outc ('\n');
              longjmp (tab[j], v);
              outs ("came back\n");
            }
        }
    }
}

int main (int argc, char **argv)
{
  int fd; long n; long r;
  script = malloc (400000);
  fd = open (argv[1], O_RDONLY);
  n = 0;
  while ((r = read (fd, script + n, 65536)) > 0) n = n + r;
  script[n] = 0;
  body ();
  while (script[at]) body ();
  outs ("done\n");
  out_flush ();
  return top;
}
