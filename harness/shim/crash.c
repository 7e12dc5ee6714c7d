/* LD_PRELOAD: ends the process before (or in the middle of) its n-th change of a file below CRASH_DIR.
 * CRASH_MODE: kill   the changes made so far stay
 *             torn   a write in progress is half done
 *             power  as kill, but changes not followed by fsync are lost (all, or only those of the database: powerdb,
 *                    or only those of the journal: powerjrn); a deletion is lost unless the directory was synced
 * CRASH_AT: n, 0 for never; CRASH_COUNT: a file that gets the number of changes when the process ends normally. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define NFD 1024
static char *path_of[NFD];
struct undo { char *path; off_t off, size; char *old; ssize_t oldlen; int unlinked; struct undo *next; };
static struct undo *undos;
static long count, at;
static const char *dir, *mode;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
static void init(void) {
  if (dir) return;
  dir = getenv("CRASH_DIR"); if (!dir) dir = "/nonexistent";
  mode = getenv("CRASH_MODE"); if (!mode) mode = "kill";
  at = getenv("CRASH_AT") ? atol(getenv("CRASH_AT")) : 0;
}
static int ours(const char *p) { init(); return p && !strncmp(p, dir, strlen(dir)); }
static const char *file(int fd) { return fd >= 0 && fd < NFD ? path_of[fd] : 0; }
static int affected(const char *p) {
  int j = strstr(p, "-journal") != 0 || strstr(p, "-wal") != 0;
  return !strcmp(mode, "power") || (!strcmp(mode, "powerdb") && !j) || (!strcmp(mode, "powerjrn") && j);
}
static void end(void) {
  if (!strncmp(mode, "power", 5))
    for (struct undo *u = undos; u; u = u->next) {
      if (!affected(u->path)) continue;
      int fd = REAL(open)(u->path, O_RDWR | (u->unlinked ? O_CREAT : 0), 0644);
      if (fd < 0) continue;
      if (u->old) { if (REAL(pwrite)(fd, u->old, u->oldlen, u->off)) {} }
      if (REAL(ftruncate)(fd, u->size)) {}
      REAL(close)(fd);
    }
  _exit(99);
}
static int tick(void) { init(); count++; return at && count == at; }
static void remember(const char *p, int fd, off_t off, size_t len, int unlinked) {
  if (strncmp(mode, "power", 5)) return;
  struct stat st;
  if (fstat(fd, &st)) return;
  struct undo *u = calloc(1, sizeof *u);
  u->path = strdup(p); u->off = off; u->size = st.st_size; u->unlinked = unlinked;
  u->old = malloc(len ? len : 1); u->oldlen = pread(fd, u->old, len, off);
  if (u->oldlen < 0) u->oldlen = 0;
  u->next = undos; undos = u;
}
static void synced(const char *p) {
  struct stat st; int isdir = !stat(p, &st) && S_ISDIR(st.st_mode);
  for (struct undo **q = &undos; *q;) {
    struct undo *u = *q;
    int hit = isdir ? u->unlinked && !strncmp(u->path, p, strlen(p)) : !u->unlinked && !strcmp(u->path, p);
    if (hit) *q = u->next; else q = &u->next;
  }
}
static int opened(int fd, const char *p) {
  if (fd >= 0 && fd < NFD) { free(path_of[fd]); path_of[fd] = ours(p) ? strdup(p) : 0; }
  return fd;
}
#define LOCK pthread_mutex_lock(&mu)
#define UNLOCK pthread_mutex_unlock(&mu)
#define OPEN(name) int name(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); \
  LOCK; struct stat st; int isnew = (fl & O_CREAT) && ours(p) && stat(p, &st); if (isnew && tick()) end(); \
  if ((fl & O_TRUNC) && ours(p) && !isnew && tick()) end(); \
  int r = opened(((int (*)(const char *, int, ...))real(#name))(p, fl, m), p); UNLOCK; return r; }
OPEN(open) OPEN(open64)
int close(int fd) { LOCK; if (fd >= 0 && fd < NFD) { free(path_of[fd]); path_of[fd] = 0; } int r = REAL(close)(fd); UNLOCK; return r; }
static void writing(int fd, const void *b, size_t n, off_t off) {
  const char *p = file(fd);
  remember(p, fd, off, n, 0);
  if (tick()) {
    if (!strcmp(mode, "torn") && n > 1) { if (REAL(pwrite)(fd, b, n / 2, off)) {} }
    end();
  }
}
#define PWRITE(name) ssize_t name(int fd, const void *b, size_t n, off_t off) { LOCK; if (file(fd)) writing(fd, b, n, off); \
  ssize_t r = ((ssize_t (*)(int, const void *, size_t, off_t))real(#name))(fd, b, n, off); UNLOCK; return r; }
PWRITE(pwrite) PWRITE(pwrite64)
ssize_t write(int fd, const void *b, size_t n) { LOCK; if (file(fd)) writing(fd, b, n, lseek(fd, 0, SEEK_CUR));
  ssize_t r = REAL(write)(fd, b, n); UNLOCK; return r; }
#define TRUNC(name) int name(int fd, off_t len) { LOCK; const char *p = file(fd); if (p) { struct stat st; \
  if (!fstat(fd, &st)) remember(p, fd, len, st.st_size > len ? st.st_size - len : 0, 0); if (tick()) end(); } \
  int r = ((int (*)(int, off_t))real(#name))(fd, len); UNLOCK; return r; }
TRUNC(ftruncate) TRUNC(ftruncate64)
#define SYNC(name) int name(int fd) { LOCK; const char *p = file(fd); if (p && tick()) end(); int r = ((int (*)(int))real(#name))(fd); \
  if (p) synced(p); UNLOCK; return r; }
SYNC(fsync) SYNC(fdatasync)
int unlink(const char *p) { LOCK; if (ours(p)) { int fd = REAL(open)(p, O_RDONLY); struct stat st;
  if (fd >= 0) { if (!fstat(fd, &st)) remember(p, fd, 0, st.st_size, 1); REAL(close)(fd); } if (tick()) end(); }
  int r = REAL(unlink)(p); UNLOCK; return r; }
__attribute__((destructor)) static void fini(void) {
  const char *f = getenv("CRASH_COUNT"); if (!f) return;
  int fd = REAL(open)(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return;
  char b[32]; int n = snprintf(b, sizeof b, "%ld\n", count); if (REAL(write)(fd, b, n)) {} REAL(close)(fd);
}
