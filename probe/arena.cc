// Histories of arena allocations and container appends, against a model.
// argv: mode seed cases. One JSON line per run on stdout.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "bant/util/arena-container.h"
#include "bant/util/arena.h"

using bant::Arena;
using bant::ArenaDeque;

static uint64_t rng_state;
static uint64_t Rnd() {
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static size_t Below(size_t n) { return n ? Rnd() % n : 0; }

static std::string violation;
static std::string context;
static void Bad(const char *what, unsigned long long a = 0,
                unsigned long long b = 0) {
  if (!violation.empty()) return;
  char buf[300];
  snprintf(buf, sizeof(buf), "%s (%llu, %llu) in %s", what, a, b,
           context.c_str());
  violation = buf;
}

static unsigned long long n_alloc, n_append, n_iter, n_index, n_blocks,
  n_verify;
static std::set<uint64_t> histories;

// Everything handed out, with the bytes that ought to be in there.
class Ledger {
 public:
  void Add(void *p, size_t size, size_t align, uint64_t pattern) {
    ++n_alloc;
    char *c = static_cast<char *>(p);
    if ((uintptr_t)c % align != 0) Bad("misaligned", size, align);
    if (size == 0) return;
    auto next = regions_.lower_bound(c);
    if (next != regions_.end() && c + size > next->first)
      Bad("overlaps later region", size, next->second.size);
    if (next != regions_.begin()) {
      auto prev = std::prev(next);
      if (prev->first + prev->second.size > c)
        Bad("overlaps earlier region", size, prev->second.size);
    }
    regions_[c] = {size, pattern};
  }
  static void Fill(void *p, size_t size, uint64_t pattern) {
    unsigned char *c = static_cast<unsigned char *>(p);
    for (size_t i = 0; i < size; ++i)
      c[i] = (unsigned char)((pattern >> (8 * (i % 8))) + i * 7);
  }
  void Verify() {
    ++n_verify;
    for (const auto &[p, r] : regions_) {
      if (r.pattern == 0) continue;
      for (size_t i = 0; i < r.size; ++i) {
        if ((unsigned char)p[i] !=
            (unsigned char)((r.pattern >> (8 * (i % 8))) + i * 7)) {
          Bad("content changed", r.size, i);
          return;
        }
      }
    }
  }

 private:
  struct R {
    size_t size;
    uint64_t pattern;
  };
  std::map<char *, R> regions_;
};

struct Odd3 {
  unsigned char c[3];
  bool operator==(const Odd3 &o) const { return memcmp(c, o.c, 3) == 0; }
};
struct Rec24 {
  uint64_t a, b;
  void *p;
  bool operator==(const Rec24 &o) const {
    return a == o.a && b == o.b && p == o.p;
  }
};
template <typename T> struct Mk {
  static T of(uint64_t v) { return static_cast<T>(v); }
};
template <> struct Mk<Odd3> {
  static Odd3 of(uint64_t v) {
    return {{(unsigned char)v, (unsigned char)(v >> 8),
             (unsigned char)(v >> 16)}};
  }
};
template <> struct Mk<Rec24> {
  static Rec24 of(uint64_t v) { return {v, ~v, reinterpret_cast<void *>(v)}; }
};
template <> struct Mk<void *> {
  static void *of(uint64_t v) { return reinterpret_cast<void *>(v); }
};

class AnyContainer {
 public:
  virtual ~AnyContainer() = default;
  virtual void Append(Arena *a) = 0;
  virtual void Check(bool full) = 0;
  virtual void Overwrite() = 0;
  virtual size_t Size() const = 0;
};

template <typename T, uint16_t MIN, uint16_t MAX>
class Monitored : public AnyContainer {
 public:
  using C = ArenaDeque<T, MIN, MAX>;
  Monitored(Arena *arena, Ledger *ledger, bool in_arena) {
    char buf[100];
    snprintf(buf, sizeof(buf), "container<size %zu,%d,%d>", sizeof(T), MIN,
             MAX);
    name_ = buf;
    if (in_arena) {
      c_ = arena->New<C>();
      ledger->Add(c_, sizeof(C), alignof(C), 0);
    } else {
      own_ = std::make_unique<C>();
      c_ = own_.get();
    }
  }
  void Append(Arena *a) final {
    context = name_;
    ++n_append;
    T v = Mk<T>::of(Rnd());
    T &ref = c_->Append(v, a);
    if ((uintptr_t)&ref % alignof(T) != 0)
      Bad("misaligned element", model_.size(), alignof(T));
    if (!(ref == v)) Bad("Append returned something else", model_.size());
    model_.push_back(v);
    where_.push_back(&ref);
  }
  size_t Size() const final { return model_.size(); }
  void Overwrite() final {  // Through the iterator: seen by everything.
    context = name_;
    size_t stop = Below(model_.size());
    size_t i = 0;
    for (T &e : *c_) {
      if (i == stop) {
        e = model_[i] = Mk<T>::of(Rnd());
        break;
      }
      ++i;
    }
  }
  void Check(bool full) final {
    context = name_;
    if (c_->size() != model_.size())
      Bad("size()", c_->size(), model_.size());
    const size_t n = model_.size();
    // Index: everything or a sample (access is linear by design).
    const C &cc = *c_;
    const bool all = full ? n <= 320 : n <= 12;
    for (size_t s = 0; s < (all ? n : full ? 20 : n < 1000 ? 4 : Below(20) == 0) && violation.empty(); ++s) {
      const size_t i = all ? s : Below(n);
      ++n_index;
      if (!(cc[i] == model_[i])) Bad("operator[]", i, n);
      if (&cc[i] != where_[i]) Bad("element moved", i, n);
    }
    if (n && (full || n < 1000 || Below(30) == 0) &&
        !(cc[n - 1] == model_[n - 1]))
      Bad("operator[] last", n);
    if (!full) return;
    size_t i = 0;
    auto it = c_->begin();
    auto end = c_->end();
    if ((it == end) != (n == 0)) Bad("begin vs end", n);
    for (; it != end && violation.empty(); ++it, ++i) {
      ++n_iter;
      if (i >= n) {
        Bad("iterates beyond end", i, n);
        return;
      }
      if (!(*it == model_[i])) Bad("iteration", i, n);
      if (&*it != where_[i]) Bad("iteration address", i, n);
    }
    if (i != n) Bad("iteration stops early", i, n);
    if (!(it == end)) Bad("end comparison", i, n);
  }

 private:
  std::string name_;
  std::unique_ptr<C> own_;
  C *c_;
  std::vector<T> model_;
  std::vector<T *> where_;
};

template <typename T>
static std::unique_ptr<AnyContainer> MakeOf(size_t kind, Arena *a, Ledger *l,
                                            bool in) {
#define K(n, mi, ma) \
  case n: return std::make_unique<Monitored<T, mi, ma>>(a, l, in)
  switch (kind) {
    K(0, 1, 1);
    K(1, 1, 64);
    K(2, 3, 96);
    K(3, 2, 2);
    K(4, 3, 10);
    K(5, 5, 8);
    K(6, 1, 2);
    K(7, 7, 28);
    K(8, 2, 1000);
    K(9, 64, 64);
    K(10, 1, 65535);
    K(11, 100, 65535);
    K(12, 17, 33);
  }
#undef K
  return std::make_unique<Monitored<T, 4, 16>>(a, l, in);
}
static std::unique_ptr<AnyContainer> MakeContainer(size_t type, size_t kind,
                                                   Arena *a, Ledger *l,
                                                   bool in) {
  switch (type) {
  case 0: return MakeOf<char>(kind, a, l, in);
  case 1: return MakeOf<int>(kind, a, l, in);
  case 2: return MakeOf<void *>(kind, a, l, in);
  case 3: return MakeOf<Odd3>(kind, a, l, in);
  case 4: return MakeOf<Rec24>(kind, a, l, in);
  case 5: return MakeOf<uint16_t>(kind, a, l, in);
  default: return MakeOf<double>(kind, a, l, in);
  }
}

template <typename T> static void NewOne(Arena *a, Ledger *l) {
  uint64_t pat = Rnd() | 1;
  context = "New<T>";
  T *p = a->New<T>();
  l->Add(p, sizeof(T), alignof(T), pat);
  if (violation.empty()) Ledger::Fill(p, sizeof(T), pat);
}

static void RawAlloc(Arena *a, Ledger *l, size_t block) {
  // Huge requests are rare: everything is verified over and over.
  if (block > 5000 && Below(300)) block = 100;
  size_t size;
  switch (Below(6)) {
  case 0: size = Below(8); break;
  case 1: size = 1 + Below(64); break;
  case 2: size = block + Below(33) - std::min<size_t>(block, 16); break;
  case 3: size = block * 2 + Below(50); break;
  case 4: size = 8 * (1 + Below(8)); break;
  default: size = 1 + Below(200);
  }
  uint64_t pat = Rnd() | 1;
  void *p = a->Alloc(size);
  char c[60];
  snprintf(c, sizeof(c), "Alloc(%zu), block %zu", size, block);
  context = c;
  if (p == nullptr) Bad("null", size);
  l->Add(p, size, 1, pat);
  if (violation.empty()) Ledger::Fill(p, size, pat);
}

static void History(uint64_t seed) {
  rng_state = seed;
  static const int kBlocks[] = {1,   8,   16,  24,   63,   64,    100,
                                128, 250, 512, 1000, 4096, 10000, 1 << 20};
  const int block = kBlocks[Below(sizeof(kBlocks) / sizeof(*kBlocks))];
  const bool use_raw = Below(2), use_new = Below(3) != 0, use_c = Below(4) != 0;
  const size_t steps = Below(10) == 0 ? 6000 : 20 + Below(400);
  const size_t n_containers = use_c ? 1 + Below(4) : 0;
  uint64_t h = block * 16 + use_raw * 8 + use_new * 4;
  Ledger ledger;
  auto arena = std::make_unique<Arena>(block);
  std::vector<std::unique_ptr<AnyContainer>> containers;
  for (size_t i = 0; i < n_containers; ++i) {
    size_t type = Below(7), kind = Below(14);
    h = h * 1000003 + type * 14 + kind;
    containers.push_back(
      MakeContainer(type, kind, arena.get(), &ledger, Below(2)));
    containers.back()->Check(true);
  }
  for (size_t s = 0; s < steps && violation.empty(); ++s) {
    size_t op = Below(10);
    h = h * 31 + op;
    if (op < 2 && use_raw) RawAlloc(arena.get(), &ledger, block);
    else if (op < 4 && use_new) {
      switch (Below(7)) {
      case 0: NewOne<char>(arena.get(), &ledger); break;
      case 1: NewOne<int>(arena.get(), &ledger); break;
      case 2: NewOne<uint64_t>(arena.get(), &ledger); break;
      case 3: NewOne<Odd3>(arena.get(), &ledger); break;
      case 4: NewOne<Rec24>(arena.get(), &ledger); break;
      case 5: NewOne<long double>(arena.get(), &ledger); break;
      default: NewOne<uint16_t>(arena.get(), &ledger);
      }
    } else if (!containers.empty()) {
      size_t which = Below(containers.size());
      size_t times = Below(20) == 0 ? 1 + Below(200) : 1 + Below(3);
      for (size_t t = 0; t < times; ++t)
        containers[which]->Append(arena.get());
      if (Below(8) == 0) containers[which]->Overwrite();
      containers[which]->Check(
        Below(containers[which]->Size() < 300 ? 5 : 120) == 0);
    }
    if (Below(200) == 0) {  // Moving the arena moves no memory.
      auto moved = std::make_unique<Arena>(std::move(*arena));
      arena = std::move(moved);
    }
    if (Below(100) == 0) ledger.Verify();
  }
  ledger.Verify();
  for (auto &c : containers) c->Check(true);
  histories.insert(h);
}

// Small containers exhaustively: check fully after each append.
static void Stepwise(uint64_t seed) {
  rng_state = seed;
  for (size_t type = 0; type < 7 && violation.empty(); ++type) {
    for (size_t kind = 0; kind < 14 && violation.empty(); ++kind) {
      Arena arena(1 + Below(300));
      Ledger ledger;
      auto c = MakeContainer(type, kind, &arena, &ledger, type % 2);
      c->Check(true);
      for (int i = 0; i < 300 && violation.empty(); ++i) {
        c->Append(&arena);
        if (i % 3 == 2) RawAlloc(&arena, &ledger, 16);
        c->Check(true);
      }
      ledger.Verify();
      histories.insert(type * 100 + kind);
    }
  }
}

// Very long containers: beyond any 16 bit counter.
static void Long(uint64_t seed) {
  rng_state = seed;
  for (size_t kind : {1, 2, 8, 9, 10, 11}) {
    Arena arena(1 << 16);
    Ledger ledger;
    auto c = MakeContainer(kind % 7, kind, &arena, &ledger, false);
    for (int i = 0; i < 200000 && violation.empty(); ++i) c->Append(&arena);
    if (kind >= 10) {
      c->Check(true);
    } else {
      c->Check(false);
    }
    histories.insert(10000 + kind);
  }
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  const int cases = atoi(argv[3]);
  uint64_t failing = 0;
  for (int i = 0; i < cases && violation.empty(); ++i) {
    failing = seed + i * 1000003ull;
    // Known before anything can crash
    fprintf(stderr, "case %s %llu\n", mode.c_str(),
            (unsigned long long)failing);
    if (mode == "history") History(failing);
    if (mode == "stepwise") Stepwise(failing);
    if (mode == "long") Long(failing);
  }
  std::string v;
  for (char c : violation) v += (c == '"' || c == '\\') ? '\'' : c;
  std::string hs;
  for (auto h : histories) hs += (hs.empty() ? "" : ",") + std::to_string(h);
  printf("{\"violation\":\"%s\",\"seed\":%llu,\"alloc\":%llu,\"append\":%llu,"
         "\"iter\":%llu,\"index\":%llu,\"verify\":%llu,\"histories\":[%s]}\n",
         v.c_str(), (unsigned long long)failing, n_alloc, n_append, n_iter,
         n_index, n_verify, hs.c_str());
  return 0;
}
