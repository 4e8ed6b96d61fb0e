// Bridges re2shim::RE2 to the real re2::RE2 in libre2.so.10 (2023-03 ABI),
// declared here by hand as the sandbox has no RE2 headers.
#define VERIF_RE2_SHIM_IMPL
#include "re2/re2.h"

#include <cstdint>
#include <cstdlib>
#include <new>

namespace re2 {
class StringPiece {
 public:
  StringPiece() = default;
  StringPiece(const char *d, size_t n) : data_(d), size_(n) {}
  const char *data_ = nullptr;
  size_t size_ = 0;
};
class RE2 {
 public:
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    int64_t max_mem_ = 8 << 20;
    Encoding encoding_ = EncodingUTF8;
    bool posix_syntax_ = false;
    bool longest_match_ = false;
    bool log_errors_ = true;
    bool literal_ = false;
    bool never_nl_ = false;
    bool dot_nl_ = false;
    bool never_capture_ = false;
    bool case_sensitive_ = true;
    bool perl_classes_ = false;
    bool word_boundary_ = false;
    bool one_line_ = false;
  };
  RE2(const StringPiece &pattern, const Options &options);
  ~RE2();
  int ProgramSize() const;
  bool Match(const StringPiece &text, size_t startpos, size_t endpos,
             Anchor re_anchor, StringPiece *submatch, int nsubmatch) const;
  static std::string QuoteMeta(const StringPiece &unquoted);

 private:
  char opaque_[2048];  // more than the real object
};
}  // namespace re2

namespace re2shim {
RE2::RE2(std::string_view p) : RE2(p, Options()) {}
RE2::RE2(std::string_view p, const Options &o) : pattern_(p) {
  re2::RE2::Options opt;
  opt.log_errors_ = o.log_errors_;
  opt.case_sensitive_ = o.case_sensitive_;
  opt.literal_ = o.literal_;
  opt.longest_match_ = o.longest_match_;
  opt.dot_nl_ = o.dot_nl_;
  opt.encoding_ = static_cast<re2::RE2::Options::Encoding>(o.encoding_);
  opt.never_capture_ = o.never_capture_;
  impl_ = new re2::RE2(re2::StringPiece(pattern_.data(), pattern_.size()), opt);
  if (!ok()) error_ = "invalid regular expression: " + pattern_;
}
RE2::~RE2() { delete static_cast<re2::RE2 *>(impl_); }
bool RE2::ok() const {
  return static_cast<re2::RE2 *>(impl_)->ProgramSize() >= 0;
}
std::string RE2::QuoteMeta(std::string_view s) {
  return re2::RE2::QuoteMeta(re2::StringPiece(s.data(), s.size()));
}
bool RE2::Match(std::string_view t, int anchor, std::string_view *sub,
                int nsub) const {
  if (!ok()) return false;
  // RE2 distinguishes null from empty; give it a real address.
  if (t.data() == nullptr) t = std::string_view("", 0);
  re2::StringPiece m[16];
  if (nsub > 16) abort();
  if (!static_cast<re2::RE2 *>(impl_)->Match(
        re2::StringPiece(t.data(), t.size()), 0, t.size(),
        static_cast<re2::RE2::Anchor>(anchor), m, nsub)) {
    return false;
  }
  for (int i = 0; i < nsub; ++i) sub[i] = std::string_view(m[i].data_, m[i].size_);
  return true;
}
}  // namespace re2shim
