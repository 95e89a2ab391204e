/* A child process that records how it was started: its arguments, its
   environment and what its standard descriptors are; the file `act' in the
   current directory has one action for each start. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

extern char **environ;

static void
hex (FILE *f, char const *tag, char const *s)
{
  fprintf (f, "%s ", tag);
  for (; *s; s++)
    fprintf (f, "%02x", *s & 255);
  fprintf (f, "\n");
}

int
main (int argc, char **argv)
{
  char buf[100000];
  int i, n = 0;
  int fd = open ("rec", O_RDWR | O_CREAT | O_APPEND, 0600);
  if (fd < 0)
    return 99;
  flock (fd, LOCK_EX);
  FILE *f = fdopen (fd, "a+");
  rewind (f);
  while (fgets (buf, sizeof buf, f))
    if (!strcmp (buf, "end\n"))
      n++;
  fseek (f, 0, SEEK_END);
  for (i = 0; i < argc; i++)
    hex (f, "arg", argv[i]);
  for (i = 0; environ[i]; i++)
    hex (f, "env", environ[i]);
  for (i = 0; i < 3; i++)
    {
      struct stat st;
      if (fstat (i, &st))
        fprintf (f, "fd %d closed\n", i);
      else
        fprintf (f, "fd %d %lu:%lu\n", i, (unsigned long) st.st_dev, (unsigned long) st.st_ino);
    }
  fprintf (f, "end\n");
  fclose (f);
  dprintf (1, "[out %d]", n);
  dprintf (2, "[err %d]", n);
  FILE *a = fopen ("act", "r");
  char how[20] = "exit";
  int value = 98;
  for (i = 0; a && i <= n; i++)
    if (fscanf (a, "%19s %d", how, &value) != 2)
      return 97;
  if (!strcmp (how, "kill"))
    {
      signal (value, SIG_DFL);
      kill (getpid (), value);
      for (;;)
        pause ();
    }
  if (!strcmp (how, "slow"))
    usleep (30000);
  return value;
}
