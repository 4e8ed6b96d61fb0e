// Stand-in for absl/log/check.h (the installed abseil is too old to have it).
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif_shim {
class Fatal {
 public:
  Fatal(const char *file, int line, const char *what) {
    s_ << "Check failed: " << file << ":" << line << ": " << what << " ";
  }
  [[noreturn]] ~Fatal() {
    std::cout.flush();
    std::cerr << s_.str() << std::endl;
    abort();
  }
  std::ostream &stream() { return s_; }

 private:
  std::ostringstream s_;
};
struct Voidify {
  void operator&(std::ostream &) {}
};
class NullStream {
 public:
  template <typename T> NullStream &operator<<(const T &) { return *this; }
};
struct NullVoidify {
  void operator&(NullStream &) {}
};
}  // namespace verif_shim
#define VERIF_FATAL_(txt) \
  ::verif_shim::Voidify() & ::verif_shim::Fatal(__FILE__, __LINE__, txt).stream()
#define CHECK(c) (__builtin_expect(static_cast<bool>(c), 1)) ? (void)0 : VERIF_FATAL_(#c)
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
// As an ordinary (non-debug) build of bant: NDEBUG decides.
#ifdef NDEBUG
#define DCHECK(c) (true || static_cast<bool>(c)) ? (void)0 : VERIF_FATAL_(#c)
#else
#define DCHECK(c) CHECK(c)
#endif
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
