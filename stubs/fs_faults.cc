// Preloaded: file system calls fail now and then, as they may. With
// $FAULT_RATE per mille (decided by $FAULT_SEED); only $FAULT_KINDS, by letter:
// o open, r read fails, e early end of file, s short reads (not a failure),
// d opendir, n readdir ends early, t stat, a access, g glob, u unknown d_type,
// i placeholder for the inode number (0, -1, or 32 bits of ones).
// What happened is appended to $FAULT_LOG.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>

static std::atomic<unsigned> state{0};
static std::atomic<int> counts[128];
static bool ours[1024], dirs[1024];

static bool Fault(char kind) {
  static const char *const kinds = getenv("FAULT_KINDS");
  static const char *const rate = getenv("FAULT_RATE");
  static const char *const seed = getenv("FAULT_SEED");
  if (!kinds || !rate || !strchr(kinds, kind)) return false;
  unsigned x = (++state) * 2654435761u ^ (seed ? strtoul(seed, 0, 10) : 1);
  x = (x ^ (x >> 15)) * 2246822519u;
  x = (x ^ (x >> 13)) * 3266489917u;
  x ^= x >> 16;
  if (x % 1000 >= strtoul(rate, 0, 10)) return false;
  ++counts[(int)kind];
  return true;
}

// Not what the runtime needs for itself.
static bool Ours(const char *p) {
  static const char *const dir = getenv("FAULT_DIR");
  return p && (*p != '/' || (dir && strncmp(p, dir, strlen(dir)) == 0));
}

template <typename F>
static F Real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}

static int AnErrno() {
  static const int all[] = {EACCES, EIO, EMFILE, ENFILE, ENOENT, ENOMEM,
                            ELOOP, EINTR, EOVERFLOW, ESTALE};
  return all[state.load() % 10];
}

static int Open(const char *name, const char *p, int flags, mode_t mode) {
  if (Ours(p) && (flags & O_ACCMODE) == O_RDONLY && Fault('o')) {
    errno = AnErrno();
    return -1;
  }
  const int fd = Real<int (*)(const char *, int, ...)>(name)(p, flags, mode);
  if (fd >= 0 && fd < 1024) ours[fd] = Ours(p);
  return fd;
}
extern "C" int open(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  const mode_t mode = va_arg(a, mode_t);
  va_end(a);
  return Open("open", p, flags, mode);
}
extern "C" int open64(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  const mode_t mode = va_arg(a, mode_t);
  va_end(a);
  return Open("open64", p, flags, mode);
}
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  static auto real = Real<ssize_t (*)(int, void *, size_t)>("read");
  if (fd >= 0 && fd < 1024 && ours[fd] && n) {
    if (Fault('r')) {
      errno = EIO;
      return -1;
    }
    if (Fault('e')) return 0;
    if (n > 1 && Fault('s')) n = 1 + state.load() % (n < 20 ? n : 20);
  }
  return real(fd, buf, n);
}
extern "C" DIR *opendir(const char *p) {
  static auto real = Real<DIR *(*)(const char *)>("opendir");
  if (Ours(p) && Fault('d')) {
    errno = AnErrno();
    return nullptr;
  }
  DIR *const d = real(p);
  const int fd = d ? dirfd(d) : -1;
  if (fd >= 0 && fd < 1024) {
    dirs[fd] = Ours(p);
    ours[fd] = false;
  }
  return d;
}
extern "C" struct dirent *readdir(DIR *d) {
  static auto real = Real<struct dirent *(*)(DIR *)>("readdir");
  if (Fault('n')) {
    errno = EIO;
    return nullptr;
  }
  struct dirent *e = real(d);
  if (e && Fault('u')) e->d_type = DT_UNKNOWN;
  return e;
}
extern "C" struct dirent64 *readdir64(DIR *d) {
  static auto real = Real<struct dirent64 *(*)(DIR *)>("readdir64");
  if (Fault('n')) {
    errno = EIO;
    return nullptr;
  }
  struct dirent64 *e = real(d);
  if (e && Fault('u')) e->d_type = DT_UNKNOWN;
  return e;
}
template <typename S>
static int Inode(bool ours, int result, S *s) {
  static const char *const seed = getenv("FAULT_SEED");
  static const unsigned long long placeholder[] = {0, ~0ull, 0xffffffffull};
  if (result == 0 && ours && Fault('i')) {
    s->st_ino = placeholder[(seed ? strtoul(seed, 0, 10) : 0) % 3];
  }
  return result;
}
#define STAT(name, type)                                            \
  extern "C" int name(const char *p, struct type *s) noexcept {     \
    static auto real =                                              \
      Real<int (*)(const char *, struct type *)>(#name);            \
    if (Ours(p) && Fault('t')) {                                    \
      errno = AnErrno();                                            \
      return -1;                                                    \
    }                                                               \
    return Inode(Ours(p), real(p, s), s);                           \
  }
STAT(stat, stat)
STAT(lstat, stat)
STAT(stat64, stat64)
STAT(lstat64, stat64)
#define FSTAT(name, type)                                           \
  extern "C" int name(int fd, struct type *s) noexcept {            \
    static auto real = Real<int (*)(int, struct type *)>(#name);    \
    if (fd >= 0 && fd < 1024 && ours[fd] && Fault('t')) {           \
      errno = EIO;                                                  \
      return -1;                                                    \
    }                                                               \
    return Inode(fd >= 0 && fd < 1024 && (ours[fd] || dirs[fd]),    \
                 real(fd, s), s);                                   \
  }
FSTAT(fstat, stat)
FSTAT(fstat64, stat64)
extern "C" int access(const char *p, int mode) noexcept {
  static auto real = Real<int (*)(const char *, int)>("access");
  if (Ours(p) && Fault('a')) {
    errno = AnErrno();
    return -1;
  }
  return real(p, mode);
}
extern "C" int glob(const char *p, int flags, int (*f)(const char *, int),
                    glob_t *g) {
  static auto real = Real<int (*)(const char *, int,
                                  int (*)(const char *, int), glob_t *)>(
    "glob");
  if (Ours(p) && Fault('g')) {
    memset(g, 0, sizeof(*g));
    return state.load() % 2 ? GLOB_NOSPACE : GLOB_ABORTED;
  }
  return real(p, flags, f, g);
}

__attribute__((destructor)) static void Report() {
  const char *log = getenv("FAULT_LOG");
  if (!log) return;
  FILE *f = fopen(log, "a");
  if (!f) return;
  for (int i = 'a'; i <= 'z'; ++i) {
    if (counts[i]) fprintf(f, "%c%d ", i, counts[i].load());
  }
  fprintf(f, ".\n");
  fclose(f);
}
