// Preloaded: directories are listed in an order that depends on $DIR_ORDER,
// with or without known types of entries. Any file system may do that.
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>

struct Listing {
  DIR *dir;
  struct dirent **entries;
  size_t count, pos;
  struct Listing *next;
};
static struct Listing *all = NULL;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static unsigned long Hash(const char *name, unsigned long seed) {
  unsigned long h = seed * 2654435761u + 1469598103934665603ull;
  for (; *name; ++name) h = (h ^ (unsigned char)*name) * 1099511628211ull;
  return h ^ (h >> 29);
}
static unsigned long seed;
static int Compare(const void *a, const void *b) {
  const unsigned long x = Hash((*(struct dirent **)a)->d_name, seed);
  const unsigned long y = Hash((*(struct dirent **)b)->d_name, seed);
  return x < y ? -1 : x > y;
}

extern "C" struct dirent *readdir(DIR *dir) {
  static struct dirent *(*real)(DIR *) = NULL;
  pthread_mutex_lock(&lock);
  if (!real) real = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
  struct Listing *l = all;
  while (l && l->dir != dir) l = l->next;
  if (!l) {
    l = (struct Listing *)calloc(1, sizeof(*l));
    l->dir = dir;
    l->next = all;
    all = l;
    const char *order = getenv("DIR_ORDER");
    seed = order ? strtoul(order, NULL, 10) : 0;
    struct dirent *e;
    while ((e = real(dir))) {
      l->entries = (struct dirent **)realloc(l->entries,
                                             (l->count + 1) * sizeof(e));
      l->entries[l->count] = (struct dirent *)malloc(sizeof(*e));
      memset(l->entries[l->count], 0, sizeof(*e));
      memcpy(l->entries[l->count], e,
             e->d_reclen < sizeof(*e) ? e->d_reclen : sizeof(*e));
      if (getenv("DIR_NOTYPE")) l->entries[l->count]->d_type = DT_UNKNOWN;
      ++l->count;
    }
    if (order) qsort(l->entries, l->count, sizeof(*l->entries), Compare);
  }
  struct dirent *result = l->pos < l->count ? l->entries[l->pos++] : NULL;
  pthread_mutex_unlock(&lock);
  return result;
}
extern "C" struct dirent64 *readdir64(DIR *dir) {
  return (struct dirent64 *)readdir(dir);
}

extern "C" int closedir(DIR *dir) {
  static int (*real)(DIR *) = NULL;
  pthread_mutex_lock(&lock);
  if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
  for (struct Listing **l = &all; *l; l = &(*l)->next) {
    if ((*l)->dir != dir) continue;
    struct Listing *gone = *l;
    *l = gone->next;
    for (size_t i = 0; i < gone->count; ++i) free(gone->entries[i]);
    free(gone->entries);
    free(gone);
    break;
  }
  pthread_mutex_unlock(&lock);
  return real(dir);
}
