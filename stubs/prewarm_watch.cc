// Preloaded: counts threads, and what they do to the file system; delays them
// by up to $WATCH_DELAY us (the main thread: $WATCH_MAIN_DELAY).
// At the end, a line is appended to $WATCH_LOG.
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>

static std::atomic<int> created{0}, joined{0}, entered{0}, left{0}, ended{0};
static std::atomic<int> detached{0};

static bool IsMain() { return syscall(SYS_gettid) == getpid(); }

static unsigned Random() {
  static thread_local unsigned state = 0;
  if (!state) {
    const char *seed = getenv("WATCH_SEED");
    state = (seed ? strtoul(seed, nullptr, 10) : 1) * 2654435761u +
            (unsigned)syscall(SYS_gettid) * 40503u + 1;
  }
  state = state * 1664525u + 1013904223u;
  return state >> 8;
}

static void Delay() {
  const char *d = getenv(IsMain() ? "WATCH_MAIN_DELAY" : "WATCH_DELAY");
  if (!d) return;
  const unsigned us = strtoul(d, nullptr, 10);
  if (us && Random() % 4) usleep(Random() % us);
}

template <typename F>
static F Real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}

struct Start {
  void *(*fun)(void *);
  void *arg;
};
static void *Run(void *p) {
  Start s = *(Start *)p;
  free(p);
  Delay();
  void *result = s.fun(s.arg);
  ++ended;
  return result;
}

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a,
                              void *(*fun)(void *), void *arg) noexcept {
  static auto real = Real<int (*)(pthread_t *, const pthread_attr_t *,
                                  void *(*)(void *), void *)>("pthread_create");
  Start *s = (Start *)malloc(sizeof(Start));
  s->fun = fun;
  s->arg = arg;
  const int result = real(t, a, Run, s);
  if (result == 0) ++created;
  return result;
}
extern "C" int pthread_join(pthread_t t, void **r) {
  static auto real = Real<int (*)(pthread_t, void **)>("pthread_join");
  const int result = real(t, r);
  if (result == 0) ++joined;
  return result;
}
extern "C" int pthread_detach(pthread_t t) noexcept {
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  ++detached;
  return real(t);
}

extern "C" int access(const char *path, int mode) noexcept {
  static auto real = Real<int (*)(const char *, int)>("access");
  const bool main = IsMain();
  if (!main) ++entered;
  Delay();
  const int result = real(path, mode);
  Delay();
  if (!main) ++left;
  return result;
}
extern "C" DIR *opendir(const char *path) {
  static auto real = Real<DIR *(*)(const char *)>("opendir");
  const bool main = IsMain();
  if (!main) ++entered;
  Delay();
  DIR *const result = real(path);
  if (!main) ++left;
  return result;
}
extern "C" int closedir(DIR *dir) {
  static auto real = Real<int (*)(DIR *)>("closedir");
  const bool main = IsMain();
  if (!main) ++entered;
  Delay();
  const int result = real(dir);
  Delay();
  if (!main) ++left;
  return result;
}

__attribute__((destructor)) static void Finish() {
  const char *log = getenv("WATCH_LOG");
  if (!log) return;
  char line[200];
  const int n = snprintf(line, sizeof(line), "%d %d %d %d %d %d\n",
                         created.load(), joined.load(), ended.load(),
                         detached.load(), entered.load(), left.load());
  const int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) {
    if (write(fd, line, n) != n) abort();
    close(fd);
  }
}
