/* C33: getopt, getopt_long, getopt_long_only against the host's, step by step. */
#define _GNU_SOURCE
#include "h.h"
#include <getopt.h>
extern char *mes_optarg; extern int mes_optind, mes_opterr;
int mes_getopt (int, char *const *, char const *);
int mes_getopt_long (int, char *const *, char const *, struct option const *, int *);
int mes_getopt_long_only (int, char *const *, char const *, struct option const *, int *);
static char const *names[] = {"foo", "foobar", "fo", "bar", "b", "verbose", "version", "help", "x-y", "output", "out", "zeta", "a1"};
int main (int argc, char **argv)
{
  h_init (argc, argv);
  opterr = 0; mes_opterr = 0;
  for (long it = 0; it < h_count_arg; it++)
    {
      char spec[80], gspec[82]; int k = 0;
      char letters[] = "abcdefxyzABC019\xe9"; 
      for (int i = h_r (8); i > 0; i--)
        {
          int c = letters[h_r (sizeof letters - 1)];
          spec[k] = 0; if (strchr (spec, c)) continue;
          spec[k++] = c;
          int a = h_r (3); while (a--) spec[k++] = ':';
        }
      spec[k] = 0;
      snprintf (gspec, sizeof gspec, "+%s", spec);
      struct option lo[14]; int nl = 0; static int gflag[14], mflag[14]; struct option ml[14];
      int mode = h_r (4); /* 0 getopt, 1,2 long, 3 long_only */
      if (mode)
        for (int i = 0; i < 13; i++)
          if (h_r (2))
            {
              int fl = !h_r (4);
              gflag[nl] = mflag[nl] = -5;
              lo[nl] = (struct option) {names[i], h_r (3), fl ? &gflag[nl] : 0, h_r (2) ? 1000 + i : 300 + i};
              ml[nl] = lo[nl]; if (fl) ml[nl].flag = &mflag[nl];
              nl++;
            }
      memset (&lo[nl], 0, sizeof *lo); memset (&ml[nl], 0, sizeof *ml);
      int n = 1 + h_r (7); char *v[12]; v[0] = strdup ("prog");
      for (int i = 1; i < n; i++)
        {
          char t[100]; int p = 0; t[0] = 0;
          int kind = h_r (10);
          /* In long_only mode a dash word may be a long option or a cluster of
             short ones; implementations rank the two differently, so only
             words that can be read in one way are given. */
          if (kind < 4 && mode != 3)
            { t[p++] = '-'; for (int j = 1 + h_r (4); j > 0; j--) t[p++] = k && h_r (4) ? spec[h_r (k)] : letters[h_r (sizeof letters - 1)]; }
          else if (kind < 4 && k)
            {
              int cc = spec[h_r (k)];
              int clash = 0; for (int j = 0; j < nl; j++) if (lo[j].name[0] == cc) clash = 1;
              if (cc == ':' || clash) { p = sprintf (t, "--"); }
              else { t[p++] = '-'; t[p++] = cc; }
            }
          else if (kind < 8 && mode)
            {
              char const *nm = nl && h_r (6) ? lo[h_r (nl)].name : names[h_r (13)];
              t[p++] = '-'; if (mode != 3 || h_r (3)) t[p++] = '-';
              int l = h_r (3) ? strlen (nm) : 1 + h_r (strlen (nm));
              if (mode == 3 && p == 1 && (!nl || strchr (spec, nm[0]))) t[p++] = '-';
              if (mode == 3 && p == 1) { int j; for (j = 0; j < nl && lo[j].name != nm; j++); if (j == nl) t[p++] = '-'; }
              if (mode == 3 && p == 1 && l < 2) l = strlen (nm) < 2 ? 2 : strlen (nm);
              if (l > (int) strlen (nm)) { p = 0; t[p++] = '-'; t[p++] = '-'; l = strlen (nm); }
              memcpy (t + p, nm, l); p += l;
              if (!h_r (3)) { t[p++] = '='; for (int j = h_r (4); j > 0; j--) t[p++] = "v=-a"[h_r (4)]; }
            }
          else if (kind == 8) { p = sprintf (t, "%s", (char *[]) {"--", "-", "", "-:", "--=", "-;"}[h_r (mode == 3 ? 3 : 5)]); }
          else { p = h_r (4); for (int j = 0; j < p; j++) t[j] = "ab1-"[h_r (j ? 4 : 3)]; }
          t[p] = 0;
          v[i] = strdup (t);
        }
      v[n] = 0;
      char desc[600]; int dl = snprintf (desc, sizeof desc, "mode %d spec %s argv", mode, h_hex (spec, k));
      for (int i = 1; i < n && dl < 500; i++) dl += snprintf (desc + dl, sizeof desc - dl, " %s", h_hex (v[i], strlen (v[i])));
      for (int i = 0; i < nl && dl < 560; i++) dl += snprintf (desc + dl, sizeof desc - dl, " {%s,%d}", lo[i].name, lo[i].has_arg);
      h_op ("%s", desc);
      h_sig (h_hash (desc, dl, mode));
      char *mv[12]; memcpy (mv, v, sizeof v);
      optind = 0; mes_optind = 0;
      int step = 0;
      for (;; step++)
        {
          int gi = -7, mi = -7, g, m;
          if (mode == 0) { g = getopt (n, v, gspec); m = mes_getopt (n, mv, spec); }
          else if (mode < 3) { g = getopt_long (n, v, gspec, lo, &gi); m = mes_getopt_long (n, mv, spec, ml, &mi); }
          else { g = getopt_long_only (n, v, gspec, lo, &gi); m = mes_getopt_long_only (n, mv, spec, ml, &mi); }
          h_count ("cases", 1);
          if (g == '?') h_count ("errors", 1);
          if (g == -1) h_count ("ends", 1); else h_count (gi >= 0 ? "long-options" : "short-options", 1);
          if (optarg) h_count ("arguments", 1);
          if (g != m && g != (signed char) m && !(g > 127 && g < 256 && (g & 255) == (m & 255)))
            { h_bad ("option", "%s: step %d returns %d, expected %d", desc, step, m, g); break; }
          if (g != '?' && mes_optarg != optarg) { h_bad ("optarg", "%s: step %d (option %d) argument is %s, expected %s", desc, step, g, mes_optarg ? mes_optarg : "(none)", optarg ? optarg : "(none)"); break; }
          if (mes_optind != optind) { h_bad ("optind", "%s: step %d (option %d) optind is %d, expected %d", desc, step, g, mes_optind, optind); break; }
          if (gi != mi) { h_bad ("longindex", "%s: step %d long index is %d, expected %d", desc, step, mi, gi); break; }
          if (memcmp (v, mv, (n + 1) * sizeof *v)) { h_bad ("argv", "%s: the argument vector was changed", desc); break; }
          if (g == -1 || step > 50) break;
        }
      for (int i = 0; i < nl; i++) if (gflag[i] != mflag[i]) { h_bad ("flag", "%s: flag of --%s is %d, expected %d", desc, lo[i].name, mflag[i], gflag[i]); break; }
      h_sample ("%s: %d steps", desc, step);
      for (int i = 0; i < n; i++) free (v[i]);
    }
  return h_done ();
}
