// Preloaded into the program: counts its calls on files in one directory (and its writes to stdout) and, at a chosen one,
// kills or holds the process there. Calls are passed on unchanged otherwise.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#undef open
#undef open64
static char watched[65536];
static int count, at = -1, half, hold, kill_, maxms = 300, logfd = -1, ready;
static const char *dir, *mark, *go; static size_t dirlen; static unsigned jitter;
static void nap(long us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, 0); }
static void init(void) {
  if (ready) return; ready = 1;
  const char *s; dir = getenv("UCV_SHIM_DIR"); if (!dir) { dir = "\001"; } dirlen = strlen(dir);
  if ((s = getenv("UCV_SHIM_AT"))) at = atoi(s);
  if ((s = getenv("UCV_SHIM_DO"))) { half = !!strstr(s, "half"); hold = !!strstr(s, "hold"); kill_ = !!strstr(s, "kill"); }
  if ((s = getenv("UCV_SHIM_MAX"))) maxms = atoi(s);
  if ((s = getenv("UCV_SHIM_JITTER"))) jitter = atoi(s) * 2654435761u + 1;
  mark = getenv("UCV_SHIM_MARK"); go = getenv("UCV_SHIM_GO");
  if ((s = getenv("UCV_SHIM_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
__attribute__((constructor)) static void start(void) { init(); }
static int mine(const char *p) { init(); return p && strstr(p, dir) != 0; }
static int minefd(int fd) { init(); return fd == 1 || (fd >= 0 && fd < 65536 && watched[fd]); }
// one call is about to happen; 1: do half of it and die
static int event(const char *name, int isw) {
  int n = __sync_add_and_fetch(&count, 1);
  if (logfd >= 0) { char b[64]; int l = snprintf(b, sizeof b, "%s\n", name); syscall(SYS_write, logfd, b, l); }
  if (jitter) { unsigned x = __sync_add_and_fetch(&jitter, 0x9e3779b9u); x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; if (x % 4 == 0) nap((x >> 8) % 3000); }
  if (n != at) return 0;
  if (hold) {
    if (mark) { int f = syscall(SYS_openat, AT_FDCWD, mark, O_WRONLY | O_CREAT | O_CLOEXEC, 0600); if (f >= 0) syscall(SYS_close, f); }
    for (int i = 0; i < maxms; i++) { struct stat st; if (go && syscall(SYS_newfstatat, AT_FDCWD, go, &st, 0) == 0) break; nap(1000); }
  }
  if (half && isw) return 1;
  if (kill_) for (;;) { syscall(SYS_kill, getpid(), SIGKILL); nap(1000); }
  return 0;
}
static void die(void) { if (kill_) for (;;) { syscall(SYS_kill, getpid(), SIGKILL); nap(1000); } }
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int opened(int fd) { if (fd >= 0 && fd < 65536) watched[fd] = 1; return fd; }
#define OPEN(name) int name(const char *p, int flags, ...) { REAL(name); int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
  if (!mine(p)) return real(p, flags, mode); event("open", 0); return opened(real(p, flags, mode)); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { REAL(name); int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
  if (!mine(p)) return real(d, p, flags, mode); event("open", 0); return opened(real(d, p, flags, mode)); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(creat); if (!mine(p)) return real(p, m); event("creat", 0); return opened(real(p, m)); }
int close(int fd) { REAL(close); if (fd != 1 && minefd(fd)) { event("close", 0); watched[fd] = 0; } return real(fd); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (minefd(fd) && event(fd == 1 ? "print" : "write", 1)) { real(fd, b, n / 2); die(); } return real(fd, b, n); }
#define PWRITE(name, off) ssize_t name(int fd, const void *b, size_t n, off o) { REAL(name); if (minefd(fd) && event("write", 1)) { real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
PWRITE(pwrite, off_t) PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (minefd(fd) && event(fd == 1 ? "print" : "write", 1)) { real(fd, v, n / 2); die(); } return real(fd, v, n); }
#define TRUNC(name, off) int name(int fd, off o) { REAL(name); if (minefd(fd)) event("truncate", 0); return real(fd, o); }
TRUNC(ftruncate, off_t) TRUNC(ftruncate64, off64_t)
int fsync(int fd) { REAL(fsync); if (minefd(fd)) event("sync", 0); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (minefd(fd)) event("sync", 0); return real(fd); }
#define FALLOC(name, off) int name(int fd, off o, off n) { REAL(name); if (minefd(fd)) event("allocate", 0); return real(fd, o, n); }
FALLOC(posix_fallocate, off_t) FALLOC(posix_fallocate64, off64_t)
int unlink(const char *p) { REAL(unlink); if (mine(p)) event("unlink", 0); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (mine(p)) event("unlink", 0); return real(d, p, f); }
int rename(const char *a, const char *b) { REAL(rename); if (mine(a) || mine(b)) event("rename", 0); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (mine(a) || mine(b)) event("rename", 0); return real(d, a, e, b); }
int link(const char *a, const char *b) { REAL(link); if (mine(a) || mine(b)) event("link", 0); return real(a, b); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (mine(p)) event("mkdir", 0); return real(p, m); }
int rmdir(const char *p) { REAL(rmdir); if (mine(p)) event("rmdir", 0); return real(p); }
#define FCNTL(name) int name(int fd, int c, ...) { REAL(name); va_list a; va_start(a, c); void *x = va_arg(a, void *); va_end(a); \
  if (fd != 1 && minefd(fd) && (c == F_SETLK || c == F_SETLKW || c == F_OFD_SETLK || c == F_OFD_SETLKW)) event(((struct flock *)x)->l_type == F_UNLCK ? "unlock" : "lock", 0); return real(fd, c, x); }
FCNTL(fcntl) FCNTL(fcntl64)
