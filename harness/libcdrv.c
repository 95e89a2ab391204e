/* Runs a script of library calls and records what each returns: one line per
   operation on descriptor 1.  Compiled by gcc with the host C library (the
   oracle), by gcc and by MesCC with the Mes C library; kept inside MesCC's
   subset of C.  Usage: drv SCRIPT ...  |  drv @show STATUS ...  */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;
#ifdef HOSTED
int sys_write (int fd, char *p, long n) { return write (fd, p, n); }
#else
int lstat (char const *file_name, struct stat *buf);
ssize_t _write (int fd, void const *p, size_t n);
int sys_write (int fd, char *p, long n) { return _write (fd, p, n); }
#endif

#ifdef MESGCC
int _open3 (char const *file_name, int flags, int mode);
#define OPEN _open3
#else
#define OPEN open
#endif

char line[70000];
int line_n;
int log_fd;
char *script;
char *tok[40];
int ntok;
char data[70000];
char home[4096];
FILE *st[8];
int fds[16];
DIR *dirs[4];
char *args[1200];
char spaces[20];
char hexd[17] = "0123456789abcdef";

void out_flush (void) { if (line_n) sys_write (log_fd, line, line_n); line_n = 0; }
void outc (int c) { line[line_n] = c; line_n = line_n + 1; if (line_n > 69000) out_flush (); }
void outs (char *s) { while (*s) { outc (*s); s = s + 1; } }
void outn (long x)
{
  char t[24]; int k; unsigned long u;
  outc (' ');
  u = x; k = 0;
  if (x < 0) { outc ('-'); u = 0 - u; }
  t[k] = '0' + u % 10; k = k + 1; u = u / 10;
  while (u) { t[k] = '0' + u % 10; k = k + 1; u = u / 10; }
  while (k) { k = k - 1; outc (t[k]); }
}
void outhex (char *p, long n)
{
  int c;
  outs (" x");
  while (n > 0) { c = *p; c = c & 255; outc (hexd[c >> 4]); outc (hexd[c & 15]); p = p + 1; n = n - 1; }
}
void outstr (char *s) { if (s) outhex (s, strlen (s)); else outs (" null"); }
void outerr (int failed) { if (failed) { outs (" errno"); outn (errno); } }
void outret (long r) { int e = errno; outn (r); errno = e; outerr (r < 0); }

int hexv (int c) { if (c >= 'a') return c - 'a' + 10; return c - '0'; }
/* Decodes token K in place. */
char *str (int k)
{
  char *s; char *d; int v;
  if (k >= ntok) return 0;
  s = tok[k];
  if (*s == 'n') return 0;
  s = s + 1;
  d = tok[k];
  while (*s) { v = 16 * hexv (s[0]) + hexv (s[1]); *d = v; d = d + 1; s = s + 2; }
  *d = 0;
  tok[k] = tok[k];
  return tok[k];
}
long slen (int k) { return (strlen (tok[k]) - 1) / 2; }
long num (int k)
{
  char *s; long v; int neg;
  s = tok[k]; v = 0; neg = 0;
  if (*s == '-') { neg = 1; s = s + 1; }
  while (*s) { v = v * 10 + (*s - '0'); s = s + 1; }
  if (neg) return 0 - v;
  return v;
}

/* FNV of a block, so that long blocks give short lines. */
void outblock (char *p, long n)
{
  unsigned h; long i; int c;
  if (n <= 64) { outhex (p, n); return; }
  h = 7; i = 0;
  while (i < n) { c = p[i]; c = c & 255; h = (h * 31 + c) & 0xffffff; i = i + 1; }
  outs (" h"); outn (h); outhex (p, 16); outhex (p + n - 16, 16);
}
/* Data of N bytes that start at byte B of a fixed sequence. */
void pattern (char *p, long b, long n)
{
  long i; long v;
  i = 0;
  while (i < n) { v = b + i; p[i] = (v * 7 + (v >> 3) * 13 + (v >> 7)) & 255; if ((v & 31) == 9) p[i] = '\n'; i = i + 1; }
}

void show (int argc, char **argv)
{
  int i; char **p;
  i = 0;
  while (i < argc) { outs ("arg"); outstr (argv[i]); outc ('\n'); i = i + 1; }
  outs ("end"); if (argv[argc]) outs (" notnull"); outc ('\n');
  p = environ;
  while (*p) { outs ("env"); outstr (*p); outc ('\n'); p = p + 1; }
  out_flush ();
}

void h0 (void) { outs ("handler 0\n"); out_flush (); }
void h1 (void) { outs ("handler 1\n"); out_flush (); }
void h2 (void) { outs ("handler 2\n"); out_flush (); }
void h3 (void) { outs ("handler 3\n"); out_flush (); }

int stream_op (char *o)
{
  int s; long n; long m; long r; char *p; int c;
  s = 0;
  if (ntok > 1) s = num (1);
  if (!strcmp (o, "fopen")) { p = str (2); st[s] = fopen (p, str (3)); outs (st[s] ? " ok" : " null"); if (!st[s]) outn (errno); }
  else if (!strcmp (o, "fdopen")) { st[s] = fdopen (fds[num (2)], str (3)); outs (st[s] ? " ok" : " null"); }
  else if (!strcmp (o, "freopen")) { p = str (2); st[s] = freopen (p, str (3), st[s]); outs (st[s] ? " ok" : " null"); }
  else if (!strcmp (o, "fclose")) { outn (fclose (st[s])); st[s] = 0; }
  else if (!strcmp (o, "fread")) { n = num (2); m = num (3); memset (data, 1, 200); r = fread (data, n, m, st[s]); outn (r); outblock (data, r * n); }
  else if (!strcmp (o, "fwrite")) { n = num (2); m = num (3); pattern (data, num (4), n * m); outn (fwrite (data, n, m, st[s])); }
  else if (!strcmp (o, "fgetc")) outn (fgetc (st[s]));
  else if (!strcmp (o, "getc")) outn (getc (st[s]));
  else if (!strcmp (o, "ungetc")) outn (ungetc (num (2), st[s]));
  else if (!strcmp (o, "fgets")) { n = num (2); memset (data, 1, n + 2); p = fgets (data, n, st[s]); if (p) { outstr (p); outs (p == data ? "" : " other"); } else outs (" null"); outn (data[n]); }
  else if (!strcmp (o, "fputc")) outn (fputc (num (2), st[s]));
  else if (!strcmp (o, "putc")) outn (putc (num (2), st[s]));
  else if (!strcmp (o, "fputs")) outs (fputs (str (2), st[s]) >= 0 ? " ok" : " fail");
  else if (!strcmp (o, "fprintf")) { p = str (3); outn (fprintf (st[s], "%d:%s|%5d\n", (int) num (2), p, (int) num (2))); }
  else if (!strcmp (o, "fseek")) outn (fseek (st[s], num (2), num (3)));
  else if (!strcmp (o, "rewind")) { n = fseek (st[s], 0, SEEK_SET); outn (n); }
  else if (!strcmp (o, "ftell")) outn (ftell (st[s]));
  else if (!strcmp (o, "fflush")) outn (fflush (st[s]));
  else if (!strcmp (o, "feof")) outs (feof (st[s]) ? " true" : " false");
  else if (!strcmp (o, "ferror")) outs (ferror (st[s]) ? " true" : " false");
  else if (!strcmp (o, "remove")) outret (remove (str (1)));
  else return 0;
  return 1;
}

int fd_op (char *o)
{
  int s; long n; long r; char *p;
  s = 0;
  if (ntok > 1 && tok[1][0] != 'x') s = num (1);
  if (!strcmp (o, "open")) { p = str (2); fds[s] = OPEN (p, num (3), num (4)); r = fds[s]; outerr (r < 0); outs (r < 0 ? " fail" : " ok"); }
  else if (!strcmp (o, "read")) { n = num (2); memset (data, 1, 200); r = read (fds[s], data, n); outret (r); if (r > 0) outblock (data, r); if (r >= 0 && data[r > n ? r : n] != 1 && n < 200) outs (" beyond"); }
  else if (!strcmp (o, "readn"))
    {
      /* Until at least that many bytes of at most so many are there: a pipe may give less at a time. */
      r = 1; n = 0;
      while (r > 0 && n < num (2)) { r = read (fds[s], data + n, num (3) - n); if (r > 0) n = n + r; }
      outn (n); outblock (data, n); if (r < 0) outret (r);
    }
  else if (!strcmp (o, "write")) { n = num (2); pattern (data, num (3), n); outret (write (fds[s], data, n)); }
  else if (!strcmp (o, "lseek")) outret (lseek (fds[s], num (2), num (3)));
  else if (!strcmp (o, "close")) outret (close (fds[s]));
  else if (!strcmp (o, "dup")) { r = dup (fds[s]); fds[num (2)] = r; outerr (r < 0); }
  else if (!strcmp (o, "dup2")) { r = dup2 (fds[s], fds[num (2)]); outs (r == fds[num (2)] ? " ok" : " fail"); outerr (r < 0); }
  else if (!strcmp (o, "dupto")) outret (dup2 (fds[s], num (2)));
  else if (!strcmp (o, "setfd")) { fds[s] = num (2); }
  else if (!strcmp (o, "getfd")) { r = fcntl (fds[s], F_GETFD, 0); outret (r); }
  else if (!strcmp (o, "cloexec")) { r = fcntl (fds[s], F_SETFD, num (2)); outret (r); }
  else if (!strcmp (o, "getfl")) { r = fcntl (fds[s], F_GETFL, 0); outret (r < 0 ? r : r & 3); }
  else if (!strcmp (o, "isatty")) { outn (isatty (fds[s])); }
  else if (!strcmp (o, "pipe")) { int pp[2]; r = pipe (pp); outret (r); if (r == 0) { fds[s] = pp[0]; fds[num (2)] = pp[1]; } }
  else if (!strcmp (o, "fsync")) outret (fsync (fds[s]));
  else return 0;
  return 1;
}

void outstat (struct stat *b)
{
  outn (b->st_mode); outn (b->st_nlink); outn (b->st_uid); outn (b->st_gid);
  if ((b->st_mode & S_IFMT) != S_IFDIR) outn (b->st_size);
  outs (S_ISDIR (b->st_mode) ? " dir" : S_ISREG (b->st_mode) ? " reg" : " other");
}
struct stat sbuf;
struct stat sbuf2;

int sys_op (char *o)
{
  long r; char *p; char *q; DIR *d; struct dirent *e; int s;
  if (!strcmp (o, "mkdir")) { p = str (1); outret (mkdir (p, num (2))); }
  else if (!strcmp (o, "rmdir")) outret (rmdir (str (1)));
  else if (!strcmp (o, "unlink")) outret (unlink (str (1)));
  else if (!strcmp (o, "rename")) { p = str (1); outret (rename (p, str (2))); }
  else if (!strcmp (o, "link")) { p = str (1); outret (link (p, str (2))); }
  else if (!strcmp (o, "symlink")) { p = str (1); outret (symlink (p, str (2))); }
  else if (!strcmp (o, "readlink")) { memset (data, 1, 200); p = str (1); r = readlink (p, data, num (2)); outret (r); if (r > 0) outhex (data, r); outn (data[num (2)]); }
  else if (!strcmp (o, "chmod")) { p = str (1); outret (chmod (p, num (2))); }
  else if (!strcmp (o, "access")) { p = str (1); outret (access (p, num (2))); }
  else if (!strcmp (o, "umask")) outn (umask (num (1)));
  else if (!strcmp (o, "chdir")) outret (chdir (str (1)));
  else if (!strcmp (o, "home")) outret (chdir (home));
  else if (!strcmp (o, "getcwd")) { p = getcwd (data, num (1)); if (p) { q = strstr (p, "/w-"); outstr (q ? q : p); outs (p == data ? "" : " other"); } else { outs (" null"); outn (errno); } }
  else if (!strcmp (o, "stat")) { r = stat (str (1), &sbuf); outret (r); if (!r) outstat (&sbuf); }
  else if (!strcmp (o, "lstat")) { r = lstat (str (1), &sbuf); outret (r); if (!r) outstat (&sbuf); }
  else if (!strcmp (o, "fstat")) { r = fstat (fds[num (1)], &sbuf); outret (r); if (!r) outstat (&sbuf); }
  else if (!strcmp (o, "same")) { p = str (1); r = stat (p, &sbuf); if (!r) r = stat (str (2), &sbuf2); outret (r); if (!r) outs (sbuf.st_ino == sbuf2.st_ino && sbuf.st_dev == sbuf2.st_dev ? " same" : " different"); }
  else if (!strcmp (o, "mtime")) { r = stat (str (1), &sbuf); outret (r); if (!r) outn (sbuf.st_mtime); }
  else if (!strcmp (o, "opendir")) { s = num (1); dirs[s] = opendir (str (2)); outs (dirs[s] ? " ok" : " null"); outerr (dirs[s] == 0); }
  else if (!strcmp (o, "readdir"))
    {
      s = num (1); r = num (2);
      errno = 0;
      while (r)
        {
          e = readdir (dirs[s]);
          if (!e) { outs (" end"); outn (errno); break; }
          outstr (e->d_name);
          r = r - 1;
        }
    }
  else if (!strcmp (o, "listdir"))
    {
      d = opendir (str (2));
      outerr (d == 0);
      if (d)
        {
          outs (" listed\n");
          while ((e = readdir (d))) { outs ("entry"); outstr (e->d_name); outc ('\n'); }
          outret (closedir (d));
        }
    }
  else if (!strcmp (o, "inode")) { s = num (1); r = 1; while ((e = readdir (dirs[s]))) { if (lstat (e->d_name, &sbuf) < 0 || sbuf.st_ino != e->d_ino && strcmp (e->d_name, "..")) { r = 0; } } outn (r); }
  else if (!strcmp (o, "closedir")) { outret (closedir (dirs[num (1)])); }
  else if (!strcmp (o, "pids")) { outn (getpid () > 1); outn (getppid () > 0); outn (getuid ()); outn (geteuid ()); outn (getgid ()); outn (getegid ()); }
  else if (!strcmp (o, "kill")) outret (kill (num (1), num (2)));
  else if (!strcmp (o, "kill0")) outret (kill (getpid (), 0));
  else if (!strcmp (o, "errno")) { errno = num (1); outn (errno); }
  else return 0;
  return 1;
}

int status_of (int s, int *code)
{
  if ((s & 127) == 0) { *code = (s >> 8) & 255; return 1; }
  if ((s & 127) != 127) { *code = s & 127; return 2; }
  return 3;
}
void outstatus (int s)
{
  int code; int k;
  code = -1;
  k = status_of (s, &code);
  outs (k == 1 ? " exited" : k == 2 ? " killed" : " ?");
  outn (code);
}
/* The exec call that tokens K... describe; returns when it failed. */
int do_exec (int k)
{
  char *how; char *file; int i; int n; int r;
  how = tok[k];
  file = str (k + 1);
  n = 0; i = k + 2;
  while (i < ntok && tok[i][0] != ';') { args[n] = str (i); n = n + 1; i = i + 1; }
  args[n] = 0;
  r = -2;
  if (!strcmp (how, "execv")) r = execv (file, args);
  if (!strcmp (how, "execvp")) r = execvp (file, args);
  if (!strcmp (how, "execve"))
    {
      char **env;
      env = args + n + 1;
      n = 0; i = i + 1;
      while (i < ntok) { env[n] = str (i); n = n + 1; i = i + 1; }
      env[n] = 0;
      r = execve (file, args, env);
    }
  if (!strcmp (how, "execl") || !strcmp (how, "execlp"))
    {
      if (how[5] == 'p')
        {
          if (n == 1) r = execlp (file, args[0], (char *) 0);
          if (n == 2) r = execlp (file, args[0], args[1], (char *) 0);
          if (n == 3) r = execlp (file, args[0], args[1], args[2], (char *) 0);
          if (n >= 4) r = execlp (file, args[0], args[1], args[2], args[3], (char *) 0);
        }
      else
        {
          if (n == 1) r = execl (file, args[0], (char *) 0);
          if (n == 2) r = execl (file, args[0], args[1], (char *) 0);
          if (n == 3) r = execl (file, args[0], args[1], args[2], (char *) 0);
          if (n >= 4) r = execl (file, args[0], args[1], args[2], args[3], (char *) 0);
        }
    }
  outs (" exec failed"); outret (r); outc ('\n'); out_flush ();
  return r;
}

int proc_op (char *o)
{
  int pid; int r; int s; int i; char *p;
  if (!strcmp (o, "setenv")) { p = str (1); outn (setenv (p, str (2), num (3))); }
  else if (!strcmp (o, "unsetenv")) unsetenv (str (1));
  else if (!strcmp (o, "getenv")) outstr (getenv (str (1)));
  else if (!strcmp (o, "countenv")) { char **q; q = environ; r = 0; while (q[r]) r = r + 1; outn (r); }
  else if (!strcmp (o, "atexit"))
    {
      r = num (1);
      r = r == 0 ? atexit (h0) : r == 1 ? atexit (h1) : r == 2 ? atexit (h2) : atexit (h3);
      outn (r);
    }
  else if (!strcmp (o, "exit")) { outs ("\n"); out_flush (); exit (num (1)); }
  else if (!strcmp (o, "_exit")) { outs ("\n"); out_flush (); _exit (num (1)); }
  else if (!strcmp (o, "abort")) { outs ("\n"); out_flush (); abort (); }
  else if (!strcmp (o, "raise")) { outs ("\n"); out_flush (); outn (raise (num (1))); }
  else if (!strcmp (o, "exec")) { outs ("\n"); out_flush (); do_exec (1); }
  else if (!strcmp (o, "run"))
    {
      outs ("\n"); out_flush ();
      pid = fork ();
      if (pid == 0) { do_exec (1); _exit (111); }
      s = -1;
      r = waitpid (pid, &s, 0);
      outs ("waited"); outs (r == pid && pid > 0 ? " same" : " other"); outstatus (s);
    }
  else if (!strcmp (o, "child"))
    {
      /* A child that ends with a status or a signal. */
      out_flush ();
      pid = fork ();
      if (pid == 0) { if (num (1) == 0) _exit (num (2)); kill (getpid (), num (2)); _exit (112); }
      s = -1;
      r = num (3) ? wait (&s) : waitpid (pid, &s, 0);
      outs (r == pid ? " same" : " other"); outstatus (s);
    }
  else if (!strcmp (o, "nochild")) { s = 5; r = waitpid (-1, &s, 0); outret (r); }
  else if (!strcmp (o, "twochildren"))
    {
      int a; int b;
      out_flush ();
      a = fork (); if (a == 0) _exit (num (1));
      b = fork (); if (b == 0) _exit (num (2));
      r = waitpid (b, &s, 0); outn (r == b); outstatus (s);
      r = waitpid (a, &s, 0); outn (r == a); outstatus (s);
    }
  else if (!strcmp (o, "return")) return 2;
  else return 0;
  return 1;
}

int main (int argc, char **argv)
{
  char *p; char *q; int fd; long n; long r; int op; int k; int max;
  log_fd = 1;
  if (argc > 2 && !strcmp (argv[1], "@show")) { show (argc, argv); return atoi (argv[2]); }
  if (argc > 2) log_fd = atoi (argv[2]);
  script = malloc (400000);
  getcwd (home, 4096);
  fd = OPEN (argv[1], O_RDONLY, 0);
  n = 0;
  while ((r = read (fd, script + n, 65536)) > 0) n = n + r;
  script[n] = 0;
  close (fd);
  if (argc > 3) show (argc, argv);
  p = script;
  op = 0;
  while (*p)
    {
      ntok = 0;
      q = p;
      while (*q && *q != '\n') q = q + 1;
      if (*q) { *q = 0; q = q + 1; }
      while (*p)
        {
          while (*p == ' ') { *p = 0; p = p + 1; }
          if (*p) { tok[ntok] = p; ntok = ntok + 1; }
          while (*p && *p != ' ') p = p + 1;
        }
      p = q;
      if (ntok)
        {
          outn (op); outc (' '); outs (tok[0]);
          errno = 0;
          k = stream_op (tok[0]);
          if (!k) k = fd_op (tok[0]);
          if (!k) k = sys_op (tok[0]);
          if (!k) k = proc_op (tok[0]);
          if (k == 2) { outs ("\n"); out_flush (); return num (1); }
          if (!k) outs (" unknown");
          outc ('\n');
          out_flush ();
        }
      op = op + 1;
    }
  outs ("done\n");
  out_flush ();
  return 0;
}
