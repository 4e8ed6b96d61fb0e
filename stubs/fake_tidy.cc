// Stand-in for clang-tidy: output is a pure function of the file, the headers
// it includes directly, the configuration, arguments and version; every
// invocation is recorded in the event log $FAKE_DIR/log.
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

static std::string Env(const char *n) {
  const char *v = getenv(n);
  return v ? v : "";
}
static bool Read(const std::string &p, std::string *out) {
  std::ifstream f(p, std::ios::binary);
  if (!f) return false;
  std::stringstream b;
  b << f.rdbuf();
  *out = b.str();
  return true;
}
static std::vector<std::string> LinesOf(const std::string &s) {
  std::vector<std::string> r;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l)) r.push_back(l);
  return r;
}
static void Log(const std::string &line) {
  int fd = open((Env("FAKE_DIR") + "/log").c_str(),
                O_WRONLY | O_APPEND | O_CREAT, 0644);
  const std::string l = line + "\n";
  if (write(fd, l.data(), l.size()) < 0) _exit(90);
  close(fd);
}
static void Put(const std::string &s) {
  size_t n = 0;
  while (n < s.size()) {
    ssize_t w = write(1, s.data() + n, s.size() - n);
    if (w <= 0) _exit(91);
    n += w;
  }
}

static std::string cwd;
static std::set<std::string> disabled;
static std::string Prefix(const std::string &style) {
  if (style == "abs") return cwd + "/";
  if (style == "exec") return Env("FAKE_EXECROOT") + "/";
  if (style == "dot") return "./";
  if (style == "absdot") return cwd + "/./";
  return "";
}
// // LINT <style> <check> <message>
static std::string Findings(const std::string &file, const std::string &content,
                            const std::string &marker, bool db_fixed,
                            const std::string &suffix = "") {
  std::string out;
  int n = 0;
  for (const auto &l : LinesOf(content)) {
    ++n;
    size_t at = l.find("// " + marker + " ");
    bool needs_db = false;
    if (at == std::string::npos) {
      at = l.find("// " + marker + "DB ");
      needs_db = true;
    }
    if (at == std::string::npos) continue;
    std::istringstream in(l.substr(at));
    std::string slashes, m, style, check, msg;
    in >> slashes >> m >> style >> check;
    std::getline(in, msg);
    if (needs_db && db_fixed) continue;
    if (disabled.count(check)) continue;
    out += Prefix(style) + file + ":" + std::to_string(n) + ":1: warning:" +
           msg + suffix + " [" + check + "]\n   " + l + "\n";
  }
  return out;
}

int main(int argc, char **argv) {
  if (argc == 2 && std::string(argv[1]) == "--version") {
    printf("Fake lint\n  version %s\n", Env("FAKE_VERSION").c_str());
    return 0;
  }
  if (argc < 2) return 1;
  char buf[4096];
  cwd = getcwd(buf, sizeof(buf));
  const std::string file = argv[1];
  std::string ctl, raw, content, cfg, db;
  const std::string key = [&]() {
    std::string k = file;
    for (char &c : k)
      if (c == '/') c = '!';
    return k;
  }();
  Log("start " + std::to_string(getpid()) + " " + file);
  Read(file, &content);
  std::string out;
  if (Read(Env("FAKE_DIR") + "/raw/" + key, &raw)) {
    out = raw;
  } else {
    Read(".clang-tidy", &cfg);
    for (const auto &l : LinesOf(cfg))
      if (l.rfind("Disable: ", 0) == 0) disabled.insert(l.substr(9));
    for (int i = 2; i < argc; ++i) {
      const std::string a = argv[i];
      if (a.rfind("--checks=", 0) != 0) continue;
      std::istringstream in(a.substr(9));
      std::string c;
      while (std::getline(in, c, ','))
        if (c.size() > 1 && c[0] == '-') disabled.insert(c.substr(1));
    }
    if (!Read("compile_commands.json", &db)) Read("compile_flags.txt", &db);
    const bool fixed = db.find("FIX") != std::string::npos;
    out = Findings(file, content, "LINT", fixed);
    out += Findings(file, content, "LINTV", fixed, " v" + Env("FAKE_VERSION"));
    std::set<std::string> seen;
    for (const auto &l : LinesOf(content)) {
      size_t i = l.find("#");
      if (i == std::string::npos) continue;
      size_t k = l.find("include", i);
      size_t q = l.find('"', i), e = l.find('"', q + 1);
      if (k == std::string::npos || q == std::string::npos ||
          e == std::string::npos)
        continue;
      const std::string inc = l.substr(q + 1, e - q - 1);
      std::string dir = file.substr(0, file.find_last_of('/') + 1), h;
      std::string path = dir + inc;
      if (!Read(path, &h)) {
        path = inc;
        if (!Read(path, &h)) continue;
      }
      if (!seen.insert(path).second) continue;
      out += Findings(path, h, "LINTH", fixed);
    }
  }
  // What is to go wrong: lines "<what> <arg> <file>" in $FAKE_DIR/ctl
  if (Read(Env("FAKE_DIR") + "/ctl", &ctl)) {
    for (const auto &l : LinesOf(ctl)) {
      std::istringstream in(l);
      std::string what, f;
      int arg;
      in >> what >> arg;
      in.get();
      std::getline(in, f);
      if (f != "*" && f != file) continue;
      if (what == "delay") usleep(arg * 1000);
      if (what == "crash") {  // after arg percent of the output
        Put(out.substr(0, out.size() * arg / 100));
        Log("crash " + std::to_string(getpid()) + " " + file);
        signal(SIGSEGV, SIG_DFL);
        raise(SIGSEGV);
      }
      if (what == "exit") {
        Log("fail " + std::to_string(getpid()) + " " + file);
        return arg;
      }
      if (what == "killrun") {  // the script, having written arg percent
        Put(out.substr(0, out.size() * arg / 100));
        std::string pid;
        Read(Env("FAKE_DIR") + "/runpid", &pid);
        Log("killrun " + pid + " " + file);
        kill(atoi(pid.c_str()), SIGKILL);
        usleep(20000);
        Put(out.substr(out.size() * arg / 100));
        Log("done " + std::to_string(getpid()) + " " + file);
        return out.empty() ? 0 : 1;
      }
      if (what == "slow") {  // output in pieces
        const size_t step = 1 + out.size() / 4;
        for (size_t i = 0; i < out.size(); i += step) {
          Put(out.substr(i, step));
          usleep(arg * 1000);
        }
        Log("done " + std::to_string(getpid()) + " " + file);
        return out.empty() ? 0 : 1;
      }
    }
  }
  Put(out);
  Log("done " + std::to_string(getpid()) + " " + file);
  return out.empty() ? 0 : 1;
}
