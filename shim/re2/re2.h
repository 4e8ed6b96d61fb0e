// Stand-in for the RE2 header (only the shared library libre2.so.10 is
// installed, without headers): same interface as far as bant needs it, the
// matching is done by the real RE2 in that library. See re2_shim.cc.
#pragma once
#include <charconv>
#include <cstddef>
#include <mutex>
#include <string>
#include <string_view>
#include <type_traits>

namespace re2shim {
class RE2 {
 public:
  enum CannedOptions { DefaultOptions, Latin1, POSIX, Quiet };
  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options() = default;
    Options(CannedOptions o)  // NOLINT
        : log_errors_(o != Quiet), encoding_(o == Latin1 ? EncodingLatin1 : EncodingUTF8) {}
    void set_encoding(Encoding e) { encoding_ = e; }
    void set_utf8(bool b) { encoding_ = b ? EncodingUTF8 : EncodingLatin1; }
    void set_max_mem(long m) {}
    void set_posix_syntax(bool) {}
    void set_perl_classes(bool) {}
    void set_word_boundary(bool) {}
    void set_one_line(bool) {}
    void set_never_nl(bool) {}
    void set_log_errors(bool b) { log_errors_ = b; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    void set_literal(bool b) { literal_ = b; }
    void set_longest_match(bool b) { longest_match_ = b; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    void set_never_capture(bool b) { never_capture_ = b; }
    bool log_errors_ = true;
    bool case_sensitive_ = true;
    bool literal_ = false;
    bool longest_match_ = false;
    bool dot_nl_ = false;
    bool never_capture_ = false;
    Encoding encoding_ = EncodingUTF8;
  };

  RE2(std::string_view p);  // NOLINT
  RE2(const char *p) : RE2(std::string_view(p)) {}  // NOLINT
  RE2(const std::string &p) : RE2(std::string_view(p)) {}  // NOLINT
  RE2(std::string_view p, const Options &o);
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;
  ~RE2();

  bool ok() const;
  const std::string &error() const { return error_; }
  const std::string &pattern() const { return pattern_; }

  static std::string QuoteMeta(std::string_view s);

  static bool Replace(std::string *str, const RE2 &re, std::string_view rewrite) {
    std::string_view sub[10];
    if (!re.Match(*str, 0, sub, 10)) return false;
    std::string r(str->data(), static_cast<size_t>(sub[0].data() - str->data()));
    Rewrite(&r, rewrite, sub);
    r.append(std::string_view(*str).substr(sub[0].data() + sub[0].size() - str->data()));
    *str = r;
    return true;
  }
  static int GlobalReplace(std::string *str, const RE2 &re, std::string_view rewrite) {
    std::string r;
    std::string_view in = *str, sub[10];
    int n = 0;
    while (re.Match(in, 0, sub, 10)) {
      ++n;
      r.append(in.substr(0, sub[0].data() - in.data()));
      Rewrite(&r, rewrite, sub);
      in.remove_prefix(sub[0].data() + sub[0].size() - in.data());
      if (sub[0].empty()) {
        if (in.empty()) break;
        r += in[0];
        in.remove_prefix(1);
      }
    }
    r.append(in);
    *str = r;
    return n;
  }

  template <typename... A>
  static bool FullMatch(std::string_view t, const RE2 &re, A *...a) {
    std::string_view sub[sizeof...(A) + 1];
    return re.Match(t, 2, sub, sizeof...(A) + 1) && Assign(sub + 1, a...);
  }
  template <typename... A>
  static bool PartialMatch(std::string_view t, const RE2 &re, A *...a) {
    std::string_view sub[sizeof...(A) + 1];
    return re.Match(t, 0, sub, sizeof...(A) + 1) && Assign(sub + 1, a...);
  }
  template <typename... A>
  static bool FindAndConsume(std::string_view *in, const RE2 &re, A *...a) {
    std::string_view sub[sizeof...(A) + 1];
    if (!re.Match(*in, 0, sub, sizeof...(A) + 1)) return false;
    if (!Assign(sub + 1, a...)) return false;
    in->remove_prefix(sub[0].data() + sub[0].size() - in->data());
    return true;
  }
  template <typename... A>
  static bool Consume(std::string_view *in, const RE2 &re, A *...a) {
    std::string_view sub[sizeof...(A) + 1];
    if (!re.Match(*in, 1, sub, sizeof...(A) + 1)) return false;
    if (!Assign(sub + 1, a...)) return false;
    in->remove_prefix(sub[0].data() + sub[0].size() - in->data());
    return true;
  }

 private:
  static void Rewrite(std::string *out, std::string_view rewrite, std::string_view *sub) {
    for (size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] != '\\' || i + 1 >= rewrite.size()) {
        *out += rewrite[i];
      } else if (char c = rewrite[++i]; c >= '0' && c <= '9') {
        out->append(sub[c - '0']);
      } else {
        *out += c;
      }
    }
  }
  static bool Assign(std::string_view *) { return true; }
  template <typename First, typename... Rest>
  static bool Assign(std::string_view *s, First *f, Rest *...r) {
    if constexpr (std::is_arithmetic_v<First>) {
      if (f && std::from_chars(s->data(), s->data() + s->size(), *f).ec !=
                 std::errc())
        return false;
    } else {
      if (f) *f = First(*s);
    }
    return Assign(s + 1, r...);
  }
  bool Match(std::string_view t, int anchor, std::string_view *sub,
             int nsub) const;

  void *impl_;
  std::string pattern_;
  std::string error_;
};

class LazyRE2 {
 public:
  RE2 &operator*() const { return *get(); }
  RE2 *operator->() const { return get(); }
  RE2 *get() const {
    std::call_once(once_, [this] { ptr_ = new RE2(pattern_, options_); });
    return ptr_;
  }
  // public, so that it stays an aggregate.
  const char *pattern_;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
  mutable RE2 *ptr_ = nullptr;
  mutable std::once_flag once_ = {};
};
}  // namespace re2shim

#ifndef VERIF_RE2_SHIM_IMPL
namespace re2 {
using re2shim::LazyRE2;
using re2shim::RE2;
}  // namespace re2
#endif
using re2shim::LazyRE2;
using re2shim::RE2;
