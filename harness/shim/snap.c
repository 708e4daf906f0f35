/* Preloaded into the VM by C03.

   SNAP_LOAD=read   mapping the image file fails, so that it is read
   SNAP_LOAD=move   the object table is put at another address
   SNAP_DIR=path    operations on files in that directory are counted;
   SNAP_AT=k        the k-th one fails:
   SNAP_HOW=E..     with this errno, or
            short   a write stores only half of the data
            kill    the process dies before it, "killed" after it
   SNAP_LOG=path    and the count and operation are written there */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>

static long count;
static char ours[1024];

static int in_dir (const char *p)
{
  const char *d = getenv ("SNAP_DIR");
  char b[PATH_MAX], *s;
  if (!d || !p) return 0;
  if (*p != '/')
    {
      if (!getcwd (b, sizeof b)) return 0;
      if (strlen (b) + strlen (p) + 2 > sizeof b) return 0;
      strcat (b, "/"); strcat (b, p); p = b;
    }
  return !strncmp (p, d, strlen (d)) && p[strlen (d)] == '/';
}

/* Answer 0 to go on, 1 if the call must fail with errno, 2 for a short write */
static int op (const char *name)
{
  static const struct { const char *n; int e; } errs[] = {
    {"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EINTR", EINTR}, {"EACCES", EACCES},
    {"EDQUOT", EDQUOT}, {"ENOENT", ENOENT}, {"EROFS", EROFS}, {0, 0} };
  const char *log = getenv ("SNAP_LOG"), *at = getenv ("SNAP_AT"), *how = getenv ("SNAP_HOW");
  int i;
  count++;
  if (log)
    {
      char b[80];
      int fd = syscall (SYS_open, log, O_WRONLY | O_CREAT | O_APPEND, 0666);
      sprintf (b, "%s\n", name);
      syscall (SYS_write, fd, b, strlen (b));
      syscall (SYS_close, fd);
    }
  if (!at || !how || count < atol (at)) return 0;
  if (count == atol (at) && !strcmp (how, "kill")) _exit (99);
  if (count > atol (at))
    {
      if (!strcmp (how, "killed")) _exit (99);
      /* a full disk stays full */
      if (strcmp (how, "ENOSPC") || strcmp (name, "write")) return 0;
    }
  if (!strcmp (how, "short")) return strcmp (name, "write") ? 0 : 2;
  for (i = 0; errs[i].n; i++)
    if (!strcmp (errs[i].n, how)) { errno = errs[i].e; return 1; }
  return 0;
}

static int do_open (const char *p, int flags, int mode)
{
  int w = in_dir (p) && (flags & (O_WRONLY | O_RDWR | O_CREAT)), r;
  if (w && op ("open")) return -1;
  r = syscall (SYS_open, p, flags, mode);
  if (r >= 0 && r < (int) sizeof ours) ours[r] = w;
  return r;
}
#define MODE int mode = 0; if (flags & O_CREAT) { va_list a; va_start (a, flags); mode = va_arg (a, int); va_end (a); }
int open (const char *p, int flags, ...) { MODE return do_open (p, flags, mode); }
int open64 (const char *p, int flags, ...) { MODE return do_open (p, flags | O_LARGEFILE, mode); }
int creat (const char *p, mode_t m) { return do_open (p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64 (const char *p, mode_t m) { return do_open (p, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

#define OURS(fd) ((fd) >= 0 && (fd) < (int) sizeof ours && ours[fd])

ssize_t write (int fd, const void *b, size_t n)
{
  if (OURS (fd))
    switch (op ("write"))
      {
      case 1: return -1;
      case 2: if (n > 1) n /= 2;
      }
  return syscall (SYS_write, fd, b, n);
}
ssize_t pwrite (int fd, const void *b, size_t n, off_t o)
{
  if (OURS (fd))
    switch (op ("write"))
      {
      case 1: return -1;
      case 2: if (n > 1) n /= 2;
      }
  return syscall (SYS_pwrite64, fd, b, n, o);
}
ssize_t writev (int fd, const struct iovec *v, int n)
{
  if (OURS (fd) && op ("write") == 1) return -1;
  return syscall (SYS_writev, fd, v, n);
}
int close (int fd)
{
  if (OURS (fd))
    {
      int f = op ("close"), e = errno;
      ours[fd] = 0;
      if (f == 1) { syscall (SYS_close, fd); errno = e; return -1; }
    }
  return syscall (SYS_close, fd);
}
int fsync (int fd) { if (OURS (fd) && op ("fsync") == 1) return -1; return syscall (SYS_fsync, fd); }
int fdatasync (int fd) { if (OURS (fd) && op ("fsync") == 1) return -1; return syscall (SYS_fdatasync, fd); }
int ftruncate (int fd, off_t n) { if (OURS (fd) && op ("truncate") == 1) return -1; return syscall (SYS_ftruncate, fd, n); }
int rename (const char *a, const char *b)
{
  if ((in_dir (a) || in_dir (b)) && op ("rename") == 1) return -1;
  return syscall (SYS_rename, a, b);
}
int link (const char *a, const char *b)
{
  if ((in_dir (a) || in_dir (b)) && op ("link") == 1) return -1;
  return syscall (SYS_link, a, b);
}
int unlink (const char *a)
{
  if (in_dir (a) && op ("unlink") == 1) return -1;
  return syscall (SYS_unlink, a);
}

void *mmap (void *a, size_t n, int prot, int flags, int fd, off_t o)
{
  const char *m = getenv ("SNAP_LOAD");
  if (m && fd >= 0 && !(flags & MAP_ANONYMOUS) && !(prot & PROT_EXEC) && !strcmp (m, "read"))
    {
      char l[64], p[PATH_MAX];
      ssize_t k;
      sprintf (l, "/proc/self/fd/%d", fd);
      k = readlink (l, p, sizeof p - 1);
      if (k > 3 && !memcmp (p + k - 3, ".im", 3)) { errno = ENODEV; return MAP_FAILED; }
    }
  if (m && a && (flags & MAP_ANONYMOUS) && !(flags & MAP_FIXED) && n > (32L << 20) && !strcmp (m, "move"))
    a = (char *) a + (96L << 30);
  if (m && a && (flags & MAP_ANONYMOUS) && !(flags & MAP_FIXED) && n > (32L << 20) && !strcmp (m, "near"))
    a = (char *) a + (1L << 20);
  return (void *) syscall (SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap64 (void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap (a, n, prot, flags, fd, o); }
