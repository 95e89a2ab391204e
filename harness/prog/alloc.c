/* C23: a random history of allocator calls; every event goes to the log on
   standard output, the contents of the live blocks are verified here. */
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define SLOTS 200
char *block[SLOTS];
long size[SLOTS];
long mark[SLOTS];
long seed;
char out[70000];
int outn;

long
rnd (long n)
{
  seed = (seed * 1103515245 + 12345) & 0x7fffffff;
  return (seed >> 8) % n;
}

void
flush ()
{
  int done = 0;
  int r;
  while (done < outn)
    {
      r = write (1, out + done, outn - done);
      if (r <= 0)
        _exit (9);
      done = done + r;
    }
  outn = 0;
}

void
put_num (long x)
{
  char t[40];
  int k = 39;
  t[39] = ' ';
  if (x < 0)
    {
      out[outn] = '-';
      outn = outn + 1;
      x = -x;
    }
  do
    {
      k = k - 1;
      t[k] = '0' + x % 10;
      x = x / 10;
    }
  while (x);
  while (k < 40)
    {
      out[outn] = t[k];
      outn = outn + 1;
      k = k + 1;
    }
}

void
event (int what, int slot, long n, char *p, char *old)
{
  out[outn] = what;
  outn = outn + 1;
  out[outn] = ' ';
  outn = outn + 1;
  put_num (slot);
  put_num (n);
  /* addresses may not be negative in a decimal record */
  put_num ((((long) p) >> 12) & 0xfffffffff);
  put_num (((long) p) & 0xfff);
  put_num ((((long) old) >> 12) & 0xfffffffff);
  put_num (((long) old) & 0xfff);
  out[outn] = '\n';
  outn = outn + 1;
  if (outn > 60000)
    flush ();
}

int
pattern (long m, long i)
{
  return (m * 31 + i * 7 + (i >> 8)) & 0x7f;
}

void
fill (int s, long from)
{
  long i;
  char *p = block[s];
  for (i = from; i < size[s]; i = i + 1)
    p[i] = pattern (mark[s], i);
}

long
differs (int s, long n)
{
  long i;
  char *p = block[s];
  for (i = 0; i < n; i = i + 1)
    if (p[i] != pattern (mark[s], i))
      return i;
  return -1;
}

long
some_size (int big)
{
  int k = rnd (20);
  if (k == 0)
    return 0;
  if (k < 8)
    return 1 + rnd (40);
  if (k < 15)
    return 1 + rnd (600);
  if (k < 19)
    return 1 + rnd (5000);
  if (big && rnd (4) == 0)
    return 100000 + rnd (900000);
  return 4090 + rnd (20);
}

int
main (int argc, char **argv)
{
  long it;
  long count = atoi (argv[2]);
  int big = atoi (argv[3]);
  long marks = 1;
  long i;
  seed = atoi (argv[1]);
  for (i = 0; i < 20; i = i + 1)
    rnd (2);
  for (it = 0; it < count; it = it + 1)
    {
      int s = rnd (SLOTS);
      long n = some_size (big);
      int k = rnd (10);
      char *old = block[s];
      char *p;
      if (!old)
        {
          if (k < 5)
            {
              p = malloc (n);
              event ('m', s, n, p, 0);
            }
          else if (k < 8)
            {
              long m = 1 + rnd (9);
              if (rnd (3) == 0)
                {
                  p = calloc (n, m);
                  n = n * m;
                }
              else
                {
                  n = n / m;
                  p = calloc (m, n);
                  n = n * m;
                }
              event ('c', s, n, p, 0);
              if (p)
                for (i = 0; i < n; i = i + 1)
                  if (p[i])
                    {
                      event ('Z', s, i, p, 0);
                      break;
                    }
            }
          else
            {
              p = realloc (0, n);
              event ('r', s, n, p, 0);
            }
          if (p)
            {
              block[s] = p;
              size[s] = n;
              marks = (marks + 1) & 0xffff;
              mark[s] = marks;
              fill (s, 0);
            }
        }
      else if (k < 5)
        {
          i = differs (s, size[s]);
          if (i >= 0)
            event ('D', s, i, old, 0);
          free (old);
          event ('f', s, size[s], 0, old);
          block[s] = 0;
        }
      else if (k < 9)
        {
          /* sometimes only a byte more or less */
          if (rnd (3) == 0)
            n = size[s] + rnd (40) - 20;
          if (n < 1)
            n = 1;
          p = realloc (old, n);
          event ('r', s, n, p, old);
          if (p)
            {
              long keep = n < size[s] ? n : size[s];
              block[s] = p;
              i = differs (s, keep);
              if (i >= 0)
                event ('P', s, i, p, old);
              size[s] = n;
              fill (s, keep);
            }
        }
      else
        {
          i = differs (s, size[s]);
          if (i >= 0)
            event ('D', s, i, old, 0);
          marks = (marks + 1) & 0xffff;
          mark[s] = marks;
          fill (s, 0);
        }
    }
  for (i = 0; i < SLOTS; i = i + 1)
    if (block[i])
      {
        long d = differs (i, size[i]);
        event ('e', i, size[i], block[i], 0);
        if (d >= 0)
          event ('D', i, d, block[i], 0);
      }
  event ('E', 0, 0, 0, 0);
  flush ();
  return 0;
}
