/* Monitor of the garbage collector, linked into the interpreter built with -DMES_VK_GC=1.
   MES_VK_GC="from every seed most log": from the FROM-th chance on collect at one chance in EVERY (0: never), MOST times;
   each collection moves every cell but the special symbols by another distance, fills the memory that
   was freed with a pattern, and walks the heap: every cell has a type, every pointer points to the start of a cell.
   The log gets the number of chances, collections and cells checked.  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "mes/mes.h"

static unsigned long from, every, seed, most, chances, forced, all, checked;
static int ready, walks;
static char logname[500];
static struct scm *news, *oldfree;
static unsigned char *map;
static size_t mapsize;

static unsigned long rnd (void)
{
  seed = seed * 6364136223846793005UL + 1442695040888963407UL;
  return seed >> 33;
}

static void say (char const *what, long a, long b, long c)
{
  FILE *f = fopen (logname, "a");
  if (f)
    {
      fprintf (f, "%s %ld %ld %ld\n", what, a, b, c);
      fclose (f);
    }
}

static void report (void)
{
  say ("end", chances, forced, checked);
}

int vk_gc_now (void)
{
  if (!ready)
    {
      char *e = getenv ("MES_VK_GC");
      ready = 1;
      if (e && sscanf (e, "%lu %lu %lu %lu %499s", &from, &every, &seed, &most, logname) == 5)
        atexit (report);
      else
        every = 0;
    }
  chances++;
  if (!every || chances < from || forced >= most)
    return 0;
  if (every > 1 && rnd () % every)
    return 0;
  forced++;
  return 1;
}

void vk_gc_move (void)
{
  news = g_news;
  oldfree = g_free;
  if (!every)
    return;
  for (unsigned long n = rnd () % 29; n; n--)
    {
      g_free->type = TNUMBER;
      g_free->car_value = 0;
      g_free->cdr_value = 77;
      g_free++;
    }
}

static int bad (char const *what, struct scm *x, struct scm *p)
{
  say (what, x - g_cells, x->type, p ? p - g_cells : 0);
  fprintf (stderr, "VK-HEAP: %s: cell %ld type %ld pointer %ld of %ld\n", what, (long) (x - g_cells), (long) x->type, p ? (long) (p - g_cells) : 0, (long) (g_free - g_cells));
  abort ();
}

static void point (struct scm *x, struct scm *p)
{
  if (p < g_cells || p >= g_free)
    bad ("outside", x, p);
  if (((char *) p - (char *) g_cells) % sizeof (struct scm))
    bad ("unaligned", x, p);
  if (!map[p - g_cells])
    bad ("inside-bytes", x, p);
}

void vk_gc_done (void)
{
  all++;
  if (!every)
    return;
  size_t live = g_free - g_cells;
  char *end = (char *) (news + live + 2);
  if (end > (char *) g_stack_array)
    end = (char *) g_stack_array;
  memset (g_free, 0xa5, end - (char *) g_free);
  if (walks++ % 3)
    return;
  if (live > mapsize)
    map = realloc (map, mapsize = live * 2);
  memset (map, 0, live);
  struct scm *x;
  for (x = g_cells; x < g_free;)
    {
      map[x - g_cells] = 1;
      if ((unsigned long) x->type >= TBROKEN_HEART)
        bad ("type", x, 0);
      if (x->type == TBYTES)
        {
          if (x->length > (size_t) MAX_STRING * 2)
            bad ("length", x, 0);
          x += bytes_cells (x->length);
        }
      else
        x++;
    }
  if (x != g_free)
    bad ("end", x, 0);
  for (x = g_cells; x < g_free;)
    {
      long t = x->type;
      if (t == TMACRO || t == TPAIR || t == TREF || t == TVARIABLE)
        point (x, x->car);
      if (t == TCLOSURE || t == TCONTINUATION || t == TKEYWORD || t == TMACRO || t == TPAIR || t == TPORT || t == TSPECIAL || t == TSTRING || t == TSTRUCT
          || t == TSYMBOL || t == TVALUES || t == TVECTOR)
        point (x, x->cdr);
      if (t == TSTRING && ((struct scm *) x->cdr)->type != TBYTES)
        bad ("string", x, x->cdr);
      if (t == TBYTES)
        x += bytes_cells (x->length);
      else
        x++;
      checked++;
    }
}
