// Shared by all probes: record framing on stdin, JSON on stdout.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

#include <unistd.h>

namespace probe {
using Record = std::vector<std::string>;

inline bool ReadAll(void *buf, size_t n) {
  char *b = static_cast<char *>(buf);
  while (n) {
    size_t r = fread(b, 1, n, stdin);
    if (r == 0) return false;
    b += r;
    n -= r;
  }
  return true;
}
inline bool ReadRecord(Record *r) {
  r->clear();
  uint32_t n;
  if (!ReadAll(&n, 4)) return false;
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t len;
    if (!ReadAll(&len, 4)) return false;
    std::string s(len, '\0');
    if (len && !ReadAll(s.data(), len)) return false;
    r->push_back(std::move(s));
  }
  return true;
}

// JSON string; every byte is one latin-1 character.
inline std::string Q(std::string_view s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c >= 32 && c < 127) {
      o += static_cast<char>(c);
    } else {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    }
  }
  return o + "\"";
}
inline std::string N(long long v) { return std::to_string(v); }
inline std::string B(bool v) { return v ? "true" : "false"; }
template <typename C> std::string Join(const C &c) {
  std::string o = "[";
  bool first = true;
  for (const auto &e : c) {
    if (!first) o += ",";
    first = false;
    o += e;
  }
  return o + "]";
}

// Answers go to the real stdout, whatever the code under test prints there.
inline int Loop(const std::function<std::string(const Record &)> &f) {
  const int out_fd = dup(1);
  dup2(2, 1);
  Record r;
  while (ReadRecord(&r)) {
    std::string o = f(r);
    o += "\n";
    const char *p = o.data();
    size_t n = o.size();
    while (n) {
      ssize_t w = write(out_fd, p, n);
      if (w <= 0) _exit(7);
      p += w;
      n -= w;
    }
  }
  return 0;
}
}  // namespace probe
