/* crash-point injector (LD_PRELOAD): when armed, counts every call that changes files and, at the chosen one,
 * performs it not at all, in part or completely, and then ends the process without any clean-up; or fails it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static long at, cnt; static int mode; /* 0: before, 1: half, 2: after, 3: the call and all later ones fail */
static char done[8192]; static int dn;
void vcr_arm(long n, int m) { at = n; mode = m; cnt = 0; }
long vcr_count(void) { return cnt; }
#define REAL(n) ((__typeof__(&n))dlsym(RTLD_NEXT, #n))
static void die(void) { _exit(99); }
/* 0: perform normally, 1: half and die, 2: whole and die, -1: fail */
static int pt(void) {
  if (!at) return 0;
  cnt++;
  if (mode == 3) return cnt >= at ? -1 : 0;
  if (cnt != at) return 0;
  if (mode == 0) die();
  return mode;
}
#define SIMPLE(T, n, decl, call) \
  T n decl { int p = pt(); if (p < 0) { errno = ENOSPC; return -1; } if (p == 1) die(); T r = REAL(n) call; if (p) die(); return r; }
#define OPEN(n) int n(const char *f, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  int p = (fl & (O_CREAT | O_TRUNC)) ? pt() : 0; if (p < 0) { errno = ENOSPC; return -1; } if (p == 1) die(); int r = REAL(n)(f, fl, m); if (p) die(); return r; }
#define OPENAT(n) int n(int d, const char *f, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  int p = (fl & (O_CREAT | O_TRUNC)) ? pt() : 0; if (p < 0) { errno = ENOSPC; return -1; } if (p == 1) die(); int r = REAL(n)(d, f, fl, m); if (p) die(); return r; }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)
#define SIZED(n, decl, half, call) ssize_t n decl { int p = pt(); if (p < 0) { errno = ENOSPC; return -1; } if (p == 1) { half; die(); } ssize_t r = REAL(n) call; if (p) die(); return r; }
SIZED(write, (int f, const void *b, size_t n), if (n > 1) (void)!REAL(write)(f, b, n / 2), (f, b, n))
SIZED(pwrite, (int f, const void *b, size_t n, off_t o), if (n > 1) (void)!REAL(pwrite)(f, b, n / 2, o), (f, b, n, o))
SIZED(pwrite64, (int f, const void *b, size_t n, off64_t o), if (n > 1) (void)!REAL(pwrite64)(f, b, n / 2, o), (f, b, n, o))
/* the kernel copies as much as there is: half of it means half of the source file */
static size_t half_(int in, size_t n) { struct stat s; if (fstat(in, &s) || s.st_size < 2) return 0; return (size_t)s.st_size / 2 < n ? (size_t)s.st_size / 2 : n / 2; }
SIZED(sendfile, (int o, int i, off_t *p0, size_t n), size_t h = half_(i, n); if (h) (void)!REAL(sendfile)(o, i, p0, h), (o, i, p0, n))
SIZED(sendfile64, (int o, int i, off64_t *p0, size_t n), size_t h = half_(i, n); if (h) (void)!REAL(sendfile64)(o, i, p0, h), (o, i, p0, n))
SIZED(copy_file_range, (int i, off64_t *p0, int o, off64_t *p1, size_t n, unsigned f), size_t h = half_(i, n); if (h) (void)!REAL(copy_file_range)(i, p0, o, p1, h, f), (i, p0, o, p1, n, f))
SIMPLE(int, rename, (const char *a, const char *b), (a, b))
SIMPLE(int, renameat, (int d, const char *a, int e, const char *b), (d, a, e, b))
SIMPLE(int, unlink, (const char *a), (a))
SIMPLE(int, unlinkat, (int d, const char *a, int f), (d, a, f))
SIMPLE(int, mkdir, (const char *a, mode_t m), (a, m))
SIMPLE(int, mkdirat, (int d, const char *a, mode_t m), (d, a, m))
SIMPLE(int, rmdir, (const char *a), (a))
SIMPLE(int, ftruncate, (int f, off_t n), (f, n))
SIMPLE(int, ftruncate64, (int f, off64_t n), (f, n))
SIMPLE(int, truncate, (const char *f, off_t n), (f, n))
SIMPLE(int, link, (const char *a, const char *b), (a, b))
SIMPLE(int, symlink, (const char *a, const char *b), (a, b))
SIMPLE(int, chmod, (const char *a, mode_t m), (a, m))
SIMPLE(int, utimensat, (int d, const char *a, const struct timespec *t, int f), (d, a, t, f))
