// Stand-in for absl/strings: the installed library is built with a
// string_view of its own, bant needs absl::string_view == std::string_view.
// Interface-compatible for what bant uses (and some neighbours).
#pragma once
#include <cctype>
#include <charconv>
#include <cstdio>
#include <initializer_list>
#include <map>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace absl {
inline namespace vshim {

// -- ascii.h
inline bool ascii_isalpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_ispunct(unsigned char c) { return c > 32 && c < 127 && !ascii_isalnum(c); }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (char &c : r) c = ascii_tolower(c); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (char &c : r) c = ascii_toupper(c); return r; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  return s;
}
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  return s;
}
inline std::string_view StripAsciiWhitespace(std::string_view s) {
  return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s));
}

// -- match.h, strip.h
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != h.npos; }
inline bool StartsWith(std::string_view t, std::string_view p) { return t.starts_with(p); }
inline bool EndsWith(std::string_view t, std::string_view p) { return t.ends_with(p); }
inline bool ConsumePrefix(std::string_view *s, std::string_view p) {
  if (!s->starts_with(p)) return false;
  s->remove_prefix(p.size());
  return true;
}
inline bool ConsumeSuffix(std::string_view *s, std::string_view p) {
  if (!s->ends_with(p)) return false;
  s->remove_suffix(p.size());
  return true;
}
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }

// -- escaping.h: as absl documents it.
inline std::string CEscape(std::string_view s) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if (c >= 32 && c < 127) {
          r += static_cast<char>(c);
        } else {
          char b[8];
          snprintf(b, sizeof(b), "\\%03o", c);
          r += b;
        }
    }
  }
  return r;
}
inline std::string CHexEscape(std::string_view s) {
  std::string r;
  bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if (c < 32 || c >= 127 || (last_hex && ascii_isxdigit(c))) {
          char b[8];
          snprintf(b, sizeof(b), "\\x%02x", c);
          r += b;
          is_hex = true;
        } else {
          r += static_cast<char>(c);
        }
    }
    last_hex = is_hex;
  }
  return r;
}

// -- numbers.h
template <typename T> bool SimpleAtoi(std::string_view s, T *out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s.front() == '+') s.remove_prefix(1);
  auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), *out);
  return !s.empty() && ec == std::errc() && p == s.data() + s.size();
}

// -- str_cat.h
enum PadSpec : unsigned char { kNoPad = 1 };
struct Hex { unsigned long long v; template <typename T> explicit Hex(T t, PadSpec = kNoPad) : v(static_cast<std::make_unsigned_t<T>>(t)) {} };
class AlphaNum {
 public:
  AlphaNum(std::string_view s) : s_(s) {}      // NOLINT
  AlphaNum(const std::string &s) : s_(s) {}    // NOLINT
  AlphaNum(const char *s) : s_(s ? s : "") {}  // NOLINT
  template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char>)
  AlphaNum(T v) : own_(std::to_string(v)), s_(own_) {}  // NOLINT
  template <typename T> requires(std::is_floating_point_v<T>)
  AlphaNum(T v) { char b[32]; snprintf(b, sizeof(b), "%.6g", (double)v); own_ = b; s_ = own_; }  // NOLINT
  AlphaNum(Hex h) { char b[32]; snprintf(b, sizeof(b), "%llx", h.v); own_ = b; s_ = own_; }  // NOLINT
  AlphaNum(const AlphaNum &) = delete;
  AlphaNum(char) = delete;
  std::string_view Piece() const { return s_; }

 private:
  std::string own_;
  std::string_view s_;
};
template <typename... A> concept AllAlphaNum = (std::is_constructible_v<AlphaNum, const A &> && ...);
inline std::string StrCatPieces(std::initializer_list<std::string_view> l) {
  std::string r;
  size_t n = 0;
  for (auto p : l) n += p.size();
  r.reserve(n);
  for (auto p : l) r.append(p);
  return r;
}
template <AllAlphaNum... A> [[nodiscard]] std::string StrCat(const A &...a) {
  return StrCatPieces({AlphaNum(a).Piece()...});
}
inline std::string StrCat() { return {}; }
template <AllAlphaNum... A> void StrAppend(std::string *d, const A &...a) {
  d->append(StrCatPieces({AlphaNum(a).Piece()...}));
}

// -- str_join.h
struct AlphaNumFormatterImpl {
  template <typename T> void operator()(std::string *o, const T &t) const { StrAppend(o, t); }
};
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
struct StreamFormatterImpl {
  template <typename T> void operator()(std::string *o, const T &t) const {
    std::ostringstream s; s << t; o->append(s.str());
  }
};
inline StreamFormatterImpl StreamFormatter() { return {}; }
template <typename It, typename F> std::string StrJoin(It b, It e, std::string_view sep, F &&f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) {
    if (!first) r.append(sep);
    first = false;
    f(&r, *b);
  }
  return r;
}
template <typename R, typename F>
  requires(!std::is_convertible_v<F, std::string_view>)
std::string StrJoin(const R &range, std::string_view sep, F &&f) {
  return StrJoin(std::begin(range), std::end(range), sep, std::forward<F>(f));
}
template <typename R> std::string StrJoin(const R &range, std::string_view sep) {
  return StrJoin(std::begin(range), std::end(range), sep, AlphaNumFormatterImpl());
}

// -- str_replace.h
template <typename L> std::string StrReplaceAllImpl(std::string_view s, const L &repl, int *count = nullptr) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    std::string_view best_from, best_to;
    for (const auto &[from, to] : repl) {  // longest match at the earliest pos
      std::string_view f(from);
      if (!f.empty() && f.size() > best_from.size() && s.substr(i).starts_with(f)) {
        best_from = f;
        best_to = to;
      }
    }
    if (best_from.empty()) { out += s[i++]; continue; }
    out.append(best_to);
    if (count) ++*count;
    i += best_from.size();
  }
  return out;
}
[[nodiscard]] inline std::string StrReplaceAll(
  std::string_view s,
  std::initializer_list<std::pair<std::string_view, std::string_view>> r) {
  return StrReplaceAllImpl(s, r);
}
template <typename M> [[nodiscard]] std::string StrReplaceAll(std::string_view s, const M &r) {
  return StrReplaceAllImpl(s, r);
}
inline int StrReplaceAll(
  std::initializer_list<std::pair<std::string_view, std::string_view>> r,
  std::string *t) {
  int count = 0;
  *t = StrReplaceAllImpl(*t, r, &count);
  return count;
}

// -- str_split.h
struct ByString { std::string d; explicit ByString(std::string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { if (d.empty()) return {t.size() > p + 1 ? p + 1 : t.npos, 0}; return {t.find(d, p), d.size()}; } };
struct ByChar { char c; explicit ByChar(char ch) : c(ch) {}
  std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { return {t.find(c, p), 1}; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(std::string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { return {t.find_first_of(d, p), 1}; } };
template <typename D> struct MaxSplitsImpl { D d; int limit; mutable int count = 0;
  std::pair<size_t, size_t> Find(std::string_view t, size_t p) const { if (count++ >= limit) return {t.npos, 0}; return d.Find(t, p); } };
inline ByChar ToDelim(char c) { return ByChar(c); }
inline ByString ToDelim(std::string_view s) { return ByString(s); }
inline ByString ToDelim(const char *s) { return ByString(s); }
inline ByString ToDelim(const std::string &s) { return ByString(s); }
template <typename T> requires requires(const T &t) { t.Find(std::string_view(), size_t(0)); }
T ToDelim(T t) { return t; }
template <typename D> auto MaxSplits(D d, int limit) { auto dd = ToDelim(d); return MaxSplitsImpl<decltype(dd)>{dd, limit}; }
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
class SplitResult {
 public:
  std::vector<std::string_view> parts;
  auto begin() const { return parts.begin(); }
  auto end() const { return parts.end(); }
  template <typename C> requires requires { typename C::value_type; }
  operator C() const {  // NOLINT
    C c;
    for (auto p : parts) c.insert(c.end(), typename C::value_type(p));
    return c;
  }
  template <typename A, typename B> operator std::pair<A, B>() const {  // NOLINT
    std::pair<A, B> r;
    if (!parts.empty()) r.first = A(parts[0]);
    if (parts.size() > 1) r.second = B(parts[1]);
    return r;
  }
};
template <typename D, typename P = AllowEmpty>
SplitResult StrSplit(std::string_view text, D delim, P pred = P()) {
  SplitResult r;
  auto d = ToDelim(delim);
  size_t pos = 0;
  for (;;) {
    auto [f, n] = d.Find(text, pos);
    if (f == text.npos) break;
    if (pred(text.substr(pos, f - pos))) r.parts.push_back(text.substr(pos, f - pos));
    pos = f + n;
  }
  if (pred(text.substr(pos))) r.parts.push_back(text.substr(pos));
  return r;
}

// -- str_format.h: the type-safe printf. Arguments are converted to what
// printf needs for them.
class FormatArg {
 public:
  FormatArg(std::string_view s) : kind_(kStr), s_(s) {}      // NOLINT
  FormatArg(const std::string &s) : kind_(kStr), s_(s) {}    // NOLINT
  FormatArg(const char *s) : kind_(kStr), s_(s ? s : "") {}  // NOLINT
  FormatArg(char c) : kind_(kChar), i_(c) {}  // NOLINT
  template <typename T> requires((std::is_integral_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, char> && std::is_signed_v<T>)
  FormatArg(T v) : kind_(kInt), i_(static_cast<long long>(v)) {}  // NOLINT
  template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char> && std::is_unsigned_v<T>)
  FormatArg(T v) : kind_(kUint), bits_(sizeof(T) * 8), i_(static_cast<long long>(v)) {}  // NOLINT
  template <typename T> requires(std::is_floating_point_v<T>)
  FormatArg(T v) : kind_(kDouble), d_(v) {}  // NOLINT
  template <typename T> requires(!std::is_same_v<T, const char> && !std::is_same_v<T, char>)
  FormatArg(T *p) : kind_(kPtr), p_(p) {}  // NOLINT
  enum Kind { kStr, kChar, kInt, kUint, kDouble, kPtr } kind_;
  int bits_ = 64;
  std::string s_;
  long long i_ = 0;
  double d_ = 0;
  const void *p_ = nullptr;
};
inline std::string FormatV(std::string_view f, std::vector<FormatArg> args) {
  std::string out;
  size_t a = 0;
  auto next = [&]() -> FormatArg { return a < args.size() ? args[a++] : FormatArg(0); };
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (++i >= f.size()) break;
    if (f[i] == '%') { out += '%'; continue; }
    std::string spec = "%";
    bool left = false;
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) { left |= f[i] == '-'; spec += f[i++]; }
    auto number = [&](bool &has) -> int {
      int v = 0;
      has = false;
      if (i < f.size() && f[i] == '*') { ++i; has = true; return static_cast<int>(next().i_); }
      while (i < f.size() && ascii_isdigit(f[i])) { has = true; v = v * 10 + (f[i++] - '0'); }
      return v;
    };
    bool hw = false, hp = false;
    int w = number(hw);
    int p = -1;
    if (i < f.size() && f[i] == '.') { ++i; p = number(hp); if (!hp) p = 0; hp = p >= 0; }
    while (i < f.size() && std::string_view("hlLqjzt").find(f[i]) != std::string_view::npos) ++i;
    if (i >= f.size()) break;
    char conv = f[i];
    if (w < 0) { left = true; spec += '-'; w = -w; }
    FormatArg arg = next();
    if (conv == 'v') conv = arg.kind_ == FormatArg::kStr ? 's' : arg.kind_ == FormatArg::kDouble ? 'g' : arg.kind_ == FormatArg::kUint ? 'u' : arg.kind_ == FormatArg::kPtr ? 'p' : 'd';
    if (hw) spec += std::to_string(w);
    if (hp) spec += "." + std::to_string(p);
    auto put = [&](auto v, const char *len) {
      std::string s2 = spec + len + conv;
      int n = snprintf(nullptr, 0, s2.c_str(), v);
      std::string b(n + 1, '\0');
      snprintf(b.data(), b.size(), s2.c_str(), v);
      b.resize(n);
      out += b;
    };
    switch (conv) {
      case 's': {
        std::string_view s = arg.s_;
        if (hp && s.size() > static_cast<size_t>(p)) s = s.substr(0, p);
        size_t pad = hw && static_cast<size_t>(w) > s.size() ? w - s.size() : 0;
        if (!left) out.append(pad, ' ');
        out.append(s);
        if (left) out.append(pad, ' ');
        break;
      }
      case 'c': put(static_cast<int>(arg.i_), ""); break;
      case 'd': case 'i':
        if (arg.kind_ == FormatArg::kUint) { conv = 'u'; put(static_cast<unsigned long long>(arg.i_), "ll"); }
        else put(arg.i_, "ll");
        break;
      case 'u': case 'x': case 'X': case 'o': put(static_cast<unsigned long long>(arg.i_), "ll"); break;
      case 'p': put(arg.p_, ""); break;
      default: put(arg.kind_ == FormatArg::kDouble ? arg.d_ : static_cast<double>(arg.i_), ""); break;
    }
  }
  return out;
}
template <typename... A> [[nodiscard]] std::string StrFormat(std::string_view f, const A &...a) {
  return FormatV(f, {FormatArg(a)...});
}
template <typename... A> std::string &StrAppendFormat(std::string *d, std::string_view f, const A &...a) {
  return d->append(FormatV(f, {FormatArg(a)...}));
}
template <typename... A> int PrintF(std::string_view f, const A &...a) {
  std::string s = FormatV(f, {FormatArg(a)...});
  return static_cast<int>(fwrite(s.data(), 1, s.size(), stdout));
}
template <typename... A> int FPrintF(FILE *o, std::string_view f, const A &...a) {
  std::string s = FormatV(f, {FormatArg(a)...});
  return static_cast<int>(fwrite(s.data(), 1, s.size(), o));
}
}  // namespace vshim
}  // namespace absl
